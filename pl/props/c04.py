"""C04: nothing is released twice or used after its release."""
CONFIGS = ("noglpk",)  # paths that end in a failed assertion are not paths of the program
from . import ownership
from ..term import show


def run(ctx):
    r = ownership.select(
        ctx, {"double-release", "use-after-release", "release-of-borrowed"}, {"heap", "file", "glpk", "param"},
        "Every heap object, stream and solver object a function allocates or receives is followed along every "
        "control-flow path: after the call that releases it (resolved through the bodies of the callees) no instruction "
        "on that path may use or release it again.  The same for objects read from a field or an element: the place may "
        "not be read again, nor survive the function, before it is overwritten; older copies of the pointer may not be "
        "used; and parts of a released object or list may not be used or kept elsewhere.", 1200)
    P = ctx.places
    for x in P.reports:
        r.bad("%s|%s|%s" % (x.fn.short, show(x.place), x.what.split(" at line")[0]),
              "%s: in %s the object in %s is released at %s, but %s" % (x.at.where(), x.fn.short, show(x.place), x.rel.where(), x.what))
    r.floor("places_whose_object_is_released", P.followed, 60)
    r.floor("values_read_from_such_places", P.values_followed, 60)
    r.floor("lists_released_with_their_elements", P.lists_followed, 10)
    r.coverage["parts_of_released_objects"] = P.parts_followed
    r.obligations += P.followed + P.values_followed + P.lists_followed + P.parts_followed
    return r
