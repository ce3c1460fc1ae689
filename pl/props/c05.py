"""C05: everything allocated is released on every path, failures included."""
CONFIGS = ("noglpk",)  # paths that end in a failed assertion are not paths of the program
from . import ownership
from ..term import show


def run(ctx):
    r = ownership.select(
        ctx, {"leak"}, {"heap", "file", "glpk", "param"},
        "Every object a call allocates (memory, constraint systems, matrices, loops, bands, streams, solver problems) is "
        "followed along every control-flow path to the function's exit: on each it must be released, returned, or stored "
        "into an object that outlives the call. At every store to a field (or array element) that owns an object, the "
        "paths into the store, callers included, must have released, handed on or never set the old one. Objects held in "
        "elements of local arrays, delivered into a local by an out-parameter, and multi-precision numbers are followed "
        "forward to the end of their holder.", 1200)
    O = ctx.overwrite
    for f, i, A, fl, why in O.reports:
        r.bad("overwrite|%s|%s" % (f.short, fl), "%s: %s overwrites %s, which still owns an object: %s" %
              (i.where(), f.short, show(A), why))
    H = ctx.hold
    for f, i, A, why in H.reports:
        r.bad("held|%s|%s" % (f.short, show(A)), "%s: %s leaves the object held in %s behind: %s" % (i.where(), f.short, show(A), why))
    r.floor("arrays_in_owning_fields_released", O.arrays, 8)
    r.floor("objects_held_in_local_arrays_and_slots", H.held, 25)
    r.obligations += H.held + O.arrays
    r.floor("stores_to_owning_fields", O.stores, 140)
    r.obligations += O.stores
    return r
