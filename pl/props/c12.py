"""C12: objects are completely initialised when they are handed out."""
from ..ctx import Result
from ..life import MustInit
from ..must import Must, D, fld, base_callee, line, GOOD
from ..term import show, contains

STRUCTS = ("pluto_constraints pluto_matrix plutoProg statement dependence pLoop band graph pluto_access plutoOptions plutoContext "
           "remapping pluto_dep_list pluto_constraints_list").split()
# arrays that have to have all their elements set by the function that allocates them
ARRAYS = {
    "pluto_constraints_alloc": ("pluto_constraints", ("val", "buf", "is_eq")),
    "pluto_matrix_alloc": ("pluto_matrix", ("val",)),
    "pluto_stmt_alloc": ("statement", ("hyp_types", "is_orig_loop", "iterators")),
}


def run(ctx):
    r = Result()
    r.rule = ("Every site that allocates a constraint system, matrix, program, statement, dependence, access, loop, band, graph, list "
              "node, context or options object: on every path on which the object leaves the function, every field of its struct has "
              "been stored to (must-write dataflow, through callees); arrays the constructors allocate have all elements set.")
    p, E = ctx.prog, ctx.eff
    structs = {s: [m[0] for m in p.structs[s]] for s in STRUCTS if s in p.structs}
    p.sizes = {}
    for s in structs:
        m = p.structs[s][-1]
        p.sizes[s] = (m[2] + m[3] + 7) // 8 * 8
    MI = ctx._get("mustinit", lambda: MustInit(p, structs))
    sites = 0
    for f in p.repo_functions:
        for i in f.calls():
            if i.callee not in ("malloc", "calloc"):
                continue
            st = MI.kind(f, i)
            if st is None:
                continue
            sites += 1
            r.obligations += len(structs[st])
            r.samples.append("%s allocated in %s (%s)" % (st, f.short, i.where()))
            if i.callee == "calloc":
                continue
            al = MI.aliases(f, i.id)
            returned = any(b.insts[-1].op == "ret" and b.insts[-1].ops and MI.may_return(f, b.insts[-1].ops[0], al) for b in f.blocks if b.insts)
            if returned:
                s = MI.exits(f, i.id, i)
            else:
                s = leaves(MI, f, i)
            for m in MI.complete(st, s):
                r.bad("%s|%s.%s" % (f.short, st, m), "%s: %s hands out a %s whose field %s is not set on every path" % (i.where(), f.short, st, m))
    r.floor("allocation_sites", sites, 14)
    M = Must(p, E)
    for name, (st, fs) in sorted(ARRAYS.items()):
        f = p.fn(name)
        if f is None:
            continue
        fr = M.frame(f, {}, ((f.name,),), True)
        for fn in fs:
            r.obligations += 1
            ok, why = filled(M, fr, st, fn)
            if not ok:
                r.bad("%s|%s[]" % (name, fn), "%s:%d: %s does not initialise all elements of %s (%s)" % (f.file, f.line, name, fn, why))
    return r


def leaves(MI, f, i):
    """fields set at the end of the function (the object escapes through a store)"""
    class Any:
        pass
    keep = MI.may_return
    MI.may_return = lambda *a, **k: True
    try:
        return MI.exits(f, i.id, i)
    finally:
        MI.may_return = keep


def frames(M, fr, out=None):
    out = [] if out is None else out
    out.append(fr)
    for i in fr.f.calls():
        sub = M.callee_frame(fr, i)
        if sub is not None:
            frames(M, sub, out)
    return out


def filled(M, top, st, fn):
    """elements of the array in the field are set up to its allocated size"""
    a = fld(D, st + "." + fn)
    P = ("ld", a)
    frs = frames(M, top)
    sizes = []
    for fr in frs:
        for iid, t in fr.fresh.items():
            if t == P:
                i = fr.f.insts[iid]
                if i.callee == "calloc":
                    return True, ""
                sizes.append(fr.T.t(i.args[-1]))
    if not sizes:
        return True, ""       # not allocated here
    why = []
    counts = [c for z in sizes for c in parts(z)]
    for fr in frs:
        for j in fr.f.allinsts():
            # a count kept in a field of the object by then
            if j.op == "store" and fr.T.t(j.ops[0]) in counts:
                counts.append(("ld", fr.T.t(j.ops[1])))
    for fr in frs:
        f, T = fr.f, fr.T
        for i in f.calls():
            c = base_callee(i)
            if c in ("memset", "bzero") and T.t(i.args[0]) == P:
                n = T.t(i.args[1] if c == "bzero" else i.args[2])
                if n in sizes:
                    return True, ""
                why.append("only %s bytes of %s are cleared" % (show(n), show(sizes[0])))

        def inner(iv, l):
            ev = {i for i in f.allinsts() if i.op == "store" and T.t(i.ops[1]) == ("idx", P, iv) and i.bb.id in l.blocks}
            return ev, {}, []
        good, bad = M.loops_over(fr, counts, inner, lambda iv: (("idx", P, iv), []))
        if good:
            return True, ""
        why += bad
    return False, "; ".join(why) or "nothing sets them"


def parts(size):
    """element counts a size expression can stand for"""
    out = [size]
    if size[0] == "mul":
        for x in size[1:]:
            if x[0] != "c":
                out.append(x)
        out += [y for x in size[1:] for y in (parts(x) if x[0] == "mul" else [])]
    return out
