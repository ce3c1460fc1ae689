"""C02: the library never changes the options it is given."""
from ..ctx import Result
from .. import effects

OWNERS = {"pluto_options_alloc", "pluto_context_alloc", "pluto_options_free", "pluto_context_free"}


def run(ctx):
    r = Result()
    r.rule = ("No function other than the option/context constructors and destructors contains an instruction, or passes to "
              "a callee that contains one, writing or releasing any option field or the context's option pointer (fresh "
              "objects excepted); decided on the interprocedural write/free summaries of every function.")
    p, E = ctx.prog, ctx.eff
    nf = 0
    for f in p.repo_functions:
        if f.linkonce or f.short in OWNERS:
            continue
        nf += 1
        e = E.eff[f.name]
        for paths in (e.writes, e.frees):
            for path, w in paths.items():
                r.obligations += 1
                if hits(f, path):
                    r.bad("%s|%s" % (f.short, effects.fmt(f, path)),
                          "%s: %s %s %s" % (w.where(), f.short, "releases" if paths is e.frees else "writes", effects.fmt(f, path)))
    readers = sum(1 for f in p.repo_functions for i in f.allinsts() if i.op == "getelementptr" and
                  any("plutoOptions." in st.get("f", "") for st in i.d["path"]))
    r.floor("functions", nf, 350)
    r.floor("option_accesses", readers, 200)
    # positive control: the constructor's own writes must be visible to the rule
    ctl = p.fn("pluto_options_alloc")
    n = sum(1 for i in ctl.allinsts() if i.op == "store" and any("plutoOptions." in s for q in E.eff[ctl.name].origin.get(i.ops[1], []) for s in q[1:])) if ctl else 0
    r.floor("constructor_writes_seen", n, 30)
    return r


def hits(f, path):
    if any(isinstance(s, str) and s.startswith("plutoOptions.") for s in path[1:]):
        return True
    for k, s in enumerate(path):
        if s == "plutoContext.options":
            return True
    if path[0][0] == "a" and f.sig and path[0][1] + 1 < len(f.sig) and len(f.sig) == len(f.params) + 1:
        t = f.sig[path[0][1] + 1]
        if t.replace("const", "").strip() in ("plutoOptions*", "plutoContext*"):
            return True
    return False
