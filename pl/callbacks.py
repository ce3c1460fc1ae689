"""Functions handed to isl to be called for every set, map or piece of something:
they never stop the iteration, and treat every element they are given."""
from .term import Terms, noreturn, contains


def callbacks(p):
    """{function: [call sites]}"""
    out = {}
    for f in p.repo_functions:
        for i in f.calls():
            c = i.callee or ""
            if c.startswith("isl_") and "_foreach" in c:
                for a in i.args:
                    if isinstance(a, str) and a.startswith("f:"):
                        g = p.functions.get(a[2:])
                        if g is not None and g.blocks:
                            out.setdefault(g.name, []).append(i)
    return {p.functions[k]: v for k, v in out.items()}


def results(f, v, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(v, int):
        yield v
        return
    if v in seen:
        return
    seen.add(v)
    i = f.insts[v]
    if i.op == "phi":
        for x, b in i.d["inc"]:
            yield from results(f, x, seen)
    elif i.op in ("zext", "sext", "trunc"):
        yield from results(f, i.ops[0], seen)
    elif i.op == "select":
        for x in i.ops[1:]:
            yield from results(f, x, seen)
    else:
        yield v


def stops(f):
    """constant results that end the iteration"""
    for i in f.allinsts():
        if i.op == "ret" and i.ops:
            for v in results(f, i.ops[0]):
                if isinstance(v, str) and v.startswith("c:") and v != "c:0":
                    yield i, v


def skips(p, E, f):
    """a return reached without anything done to the caller's data (the last parameter)"""
    T = Terms(f)
    U = ("p", len(f.params) - 1)

    def acts(i):
        if i.op == "store":
            return contains(T.t(i.ops[1]), U)
        if i.op == "call":
            c = i.callee or ""
            if c.startswith("llvm."):
                return False
            if not any(contains(T.t(a), U) for a in i.args):
                # through a record of its own
                if not (c.startswith("isl_") and "_foreach" in c):
                    return False
            g = p.callee(i)
            if g is None or g.decl:
                return "_foreach" in c
            e = E.eff.get(g.name)
            return e is not None and bool(e.writes)
        return False
    seen, work = set(), [f.blocks[0]]
    while work:
        b = work.pop()
        if b.id in seen or noreturn(b):
            continue
        seen.add(b.id)
        if any(acts(i) for i in b.insts):
            continue
        if b.insts and b.insts[-1].op == "ret":
            yield b.insts[-1]
        work += b.succ
