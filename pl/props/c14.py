"""C14: no statement, dependence, access or row is left out of a pass over them."""
import json, os
from ..ctx import Result
from ..passes import passes, limit, down, offset, COUNT, COUNTS, ALSO, ELEMS, idxs
from ..term import Terms, loops, show, innermost, noreturn, contains, mkadd
from ..expr import CASTS
from ..guards import Guards
from ..callbacks import callbacks, stops, skips

# passes that leave elements out on purpose
EXCEPT = {
    ("has_spatial_reuse", "pluto_matrix.val"),       # the fastest varying subscript is judged separately
}
EXCEPT2 = {("has_spatial_reuse", "pluto_matrix.nrows")}     # as above
# callbacks that select
FILTERS = {"stmt_filter"}
STRUCTS = {"Stmt", "Dep", "Ploop", "Band", "PlutoAccess", "PlutoConstraints", "PlutoMatrix", "statement", "dependence", "pLoop", "band",
           "pluto_access", "pluto_constraints", "pluto_matrix", "Scc", "scc", "vertex", "Vertex"}
BIG = {"plutoProg.stmts", "plutoProg.deps", "plutoProg.transdeps", "statement.reads", "statement.writes", "pLoop.stmts",
       "graph.vertices", "graph.sccs", "scc.vertices"}


def counts(f, q):
    """(terms that are the number of elements, terms that count something else)"""
    if q.coll:
        st = q.coll.split(".")[0]
        o = q.addr[1]
        good = {("ld", ("fld", o, "%s.%s" % (st, n))) for n in (COUNT[q.coll],) + ALSO.get(q.coll, ())}
        wrong = {("ld", ("fld", o, "%s.%s" % (st, n))) for n in COUNTS[st]} - good
        return good, wrong
    b = q.addr
    if b[0] == "call":
        return {("ld", a) for a in b[4:] if a[0] == "loc"}, set()
    if b[0] == "p" and f.sig and b[1] + 1 < len(f.sig) and f.sig[b[1] + 1].count("*") >= 2:
        return {("p", k) for k, prm in enumerate(f.params) if prm["ty"] in ("i32", "i64") and k > b[1]}, set()
    return set(), set()


def nested(f, q, n):
    """a pair loop: n elements may be left out at the end (n < 0: at the start)"""
    lo, hi = pairs(f, q.l, q.iv)
    return hi >= n if n > 0 else lo >= -n


def put(t, iv, v):
    """the term for another element"""
    if t == ("iv", (), iv):
        return v
    if not isinstance(t, tuple):
        return t
    n = tuple(put(x, iv, v) if isinstance(x, tuple) else x for x in t)
    if n and n[0] == "add" and len(n) == 3 and n[2][0] == "c":
        return mkadd(n[1], n[2])
    if n and n[0] == "idx" and n[2] == ("c", 0):
        return n[1]
    return n


def uses(f, l, iv):
    """instructions of the loop that work on the element the variable stands for"""
    T = Terms(f)
    for b in l.blocks:
        for i in f.blocks[b].insts:
            if i.op in ("load", "store"):
                t = T.t(i.ops[0] if i.op == "load" else i.ops[1])
                if contains(t, ("iv", (), iv)):
                    yield i, t
            elif i.op == "call" and i.callee and not i.callee.startswith("llvm."):
                ts = tuple(T.t(a) for a in i.args)
                if any(contains(t, ("iv", (), iv)) for t in ts):
                    yield i, ts


def feeds(f, v, l):
    """the value goes into the loop: it starts one of the loop's variables or is compared inside"""
    seen, work = set(), [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for i in f.allinsts():
            if i.op == "phi":
                if any(w == x for w, _ in i.d["inc"]):
                    if i.bb is l.header:
                        return True
            elif i.op == "icmp" and x in i.ops and i.bb.id in l.blocks:
                return True
            elif x in i.ops and (i.op in CASTS or i.op in ("sub", "select")) or i.op == "call" and x in i.args and (i.callee or "").split(".")[0] in ("llvm", "abs", "labs", "llabs"):
                work.append(i.id)
    return False


def apart(f, l, iv, v):
    """the element v is handled apart from the loop"""
    T = Terms(f)
    want = {}
    for i, t in uses(f, l, iv):
        want.setdefault((i.op, i.callee if i.op == "call" else None), set()).add(
            tuple(put(x, iv, v) for x in t) if i.op == "call" else put(t, iv, v))
    for i in f.allinsts():
        if i.op in ("load", "store"):
            t = T.t(i.ops[0] if i.op == "load" else i.ops[1])
            if t in want.get((i.op, None), ()):
                if i.op == "store" and i.bb.id not in l.blocks:
                    return True
                if i.op == "load" and feeds(f, i.id, l):
                    return True
        elif i.op == "call" and i.bb.id not in l.blocks and ("call", i.callee) in want:
            if tuple(T.t(a) for a in i.args) in want[("call", i.callee)]:
                return True
    return False


def pairs(f, l, iv):
    """(elements that may be left out at the start, at the end): loops inside that run over the other element of a pair"""
    lo = hi = 0
    T = Terms(f)
    me = ("iv", (), iv)
    for h, x in loops(f).items():
        if x is l or h not in l.blocks:
            continue
        for jv, (init, step) in x.ivs.items():
            b, c = offset(T.t(init))
            if step > 0:
                if b == me:
                    hi = max(hi, c)                 # from i + c on
                for b, c in limit(T, f, x, jv):
                    if b == me:
                        lo = max(lo, 1 - c)         # below i + c
            elif step < 0:
                if b == me:
                    lo = max(lo, -c)                # down from i + c
                for b, c in down(T, f, x, jv):
                    if b == me:
                        hi = max(hi, c)             # down to i + c
    return lo, hi


def counted(p, f, b):
    """a bound that is the number of elements of something (columns end with the constant, and are judged by C11 and C12)"""
    if b[0] == "p":
        return True
    if b[0] == "ld" and b[1][0] == "idx":
        return True
    if b[0] == "ld" and b[1][0] == "loc":      # a number handed back by a function of the library
        T = Terms(f)
        return any(i.op == "call" and i.callee in p.functions and p.functions[i.callee].in_repo and p.functions[i.callee].blocks and any(T.t(a) == b[1] for a in i.args) for i in f.allinsts())
    if b[0] == "ld" and b[1][0] == "p":
        return True
    if b[0] in ("min", "mul", "sel"):
        return all(counted(p, f, x) for x in b[1:] if x[0] != "icmp")
    if b[0] == "v" and b[1] == () and f.insts[b[2]].op == "phi" and b[2] not in f._phis:
        f._phis.add(b[2])
        T = Terms(f)
        return all(counted(p, f, T.t(v)) for v, _ in f.insts[b[2]].d["inc"])
    if b[0] == "call" and b[1] in p.functions and p.functions[b[1]].dem.rstrip(" const").endswith("::size()"):
        return True
    return b[0] == "ld" and b[1][0] == "fld" and b[1][2].split(".")[-1] not in ("ncols", "alloc_ncols")


def ahead(f, l, iv, k):
    """the loop also works on the element k further"""
    for i, t in uses(f, l, iv):
        for x in idxs(t, []):
            b, c = offset(x[2])
            if b == ("iv", (), iv) and (c >= k if k > 0 else c <= k):
                return True
    return False


def ranges(ctx, r):
    """every counted loop covers its range"""
    n = 0
    for f in ctx.prog.repo_functions:
        T = Terms(f)
        for h, l in loops(f).items():
            for iv, (init, step) in l.ivs.items():
                f._phis = set()
                i0 = T.t(init)
                where = l.header.insts[-1].where()
                if step > 0:
                    lim = [(b, c) for b, c in limit(T, f, l, iv) if counted(ctx.prog, f, b)]
                    for b, c in lim:
                        n += 1
                        if (f.short, b[1][2] if b[0] == "ld" and b[1][0] == "fld" else "") in EXCEPT2:
                            c += 1
                        first = i0[1] if i0[0] == "c" else 0
                        if first > 0 and c >= first or i0[0] != "c" and offset(i0)[1] == c:
                            continue            # counts from one; a range moved as a whole
                        lo, hi = pairs(f, l, iv)
                        if -c > hi and not ahead(f, l, iv, -c) and not apart(f, l, iv, mkadd(b, ("c", c))):
                            r.bad("%s|%s|range-end" % (f.short, show(b)), "%s: a loop in %s stops %d before %s" % (where, f.short, -c, show(b)))
                        if first > lo and not ahead(f, l, iv, -first) and not apart(f, l, iv, ("c", 0)):
                            r.bad("%s|%s|range-start" % (f.short, show(b)), "%s: a loop in %s up to %s starts at %d" % (where, f.short, show(b), first))
                elif step < 0:
                    b, c = offset(i0)
                    if not counted(ctx.prog, f, b):
                        continue
                    n += 1
                    lo, hi = pairs(f, l, iv)
                    for lb, lc in down(T, f, l, iv):
                        if lb != ("c", 0) or lc > 0 and c >= lc - 1:
                            continue
                        if -1 - c > hi and not ahead(f, l, iv, -1 - c):
                            r.bad("%s|%s|range-end" % (f.short, show(b)), "%s: a loop in %s starts %d before the last of %s" % (where, f.short, -1 - c, show(b)))
                        if lc > lo and not ahead(f, l, iv, -lc) and not apart(f, l, iv, ("c", 0)):
                            r.bad("%s|%s|range-start" % (f.short, show(b)), "%s: a loop in %s down from %s stops at %d" % (where, f.short, show(b), lc))
    r.obligations += n
    r.floor("counted_loops", n, 500)


def run(ctx):
    r = Result()
    r.rule = ("Every loop whose induction variable indexes a collection (statements, dependences, accesses, loops, vertices, "
              "components, rows) by its element count starts at the first and ends after the last element (pair loops excepted), is "
              "bounded by that collection's own count, and - over statements, dependences and accesses - leaves early only when it "
              "has nothing to do but answer; what decides whether a dependence is acted upon is limited to the reasons listed for "
              "the pass in tables/passes.json; functions isl calls for every set, map or piece never end the "
              "iteration and treat every element they are given.")
    p, E = ctx.prog, ctx.eff
    npass = nfull = 0
    for f in p.repo_functions:
        for q in passes(f):
            good, wrong = counts(f, q)
            if not good:
                continue
            big = q.coll in BIG or q.coll is None
            name = q.coll or "list"
            T = q.T
            lim = limit(T, f, q.l, q.iv) if q.step > 0 else []
            npass += 1
            what = show(q.addr)
            key = "%s|%s" % (f.short, what)
            if (f.short, name) in EXCEPT:
                continue
            if q.step > 0:
                if abs(q.step) != 1 and any(b in good for b, c in lim):
                    r.bad(key + "|step", "%s: %s visits only every %dth element of %s" % (q.where(), f.short, q.step, what))
                hit = False
                for b, c in lim:
                    if b in wrong:
                        r.bad(key + "|count", "%s: %s runs over %s up to %s, the count of another collection" % (q.where(), f.short, what, show(b)))
                        hit = True
                    elif b in good or big and b[0] == "ld" and b[1][0] == "fld" and b[1][2].split(".")[-1] in {COUNT.get(q.coll)} | {"nstmts", "nVertices", "ndeps", "num_sccs"}:
                        hit = True
                        if c + max(q.offs) < 0 and not nested(f, q, -(c + max(q.offs))):
                            r.bad(key + "|end", "%s: %s stops %d before the end of %s (runs to %s%+d)" %
                                  (q.where(), f.short, -(c + max(q.offs)), what, show(b), c))
                if hit and q.init[0] == "c" and q.init[1] + min(q.offs) > 0 and not nested(f, q, -(q.init[1] + min(q.offs))) and not apart(f, q.l, q.iv, ("c", 0)):
                    r.bad(key + "|start", "%s: %s starts at element %d of %s" % (q.where(), f.short, q.init[1] + min(q.offs), what))
                if hit:
                    nfull += 1
            else:
                b, c = offset(q.init)
                dl = down(T, f, q.l, q.iv)
                if b in wrong and q.coll:
                    r.bad(key + "|count", "%s: %s runs over %s from %s, the count of another collection" % (q.where(), f.short, what, show(b)))
                elif b in good:
                    nfull += 1
                    if c + max(q.offs) < -1 and not nested(f, q, -1 - c - max(q.offs)):
                        r.bad(key + "|end", "%s: %s leaves out the last %d elements of %s" % (q.where(), f.short, -1 - c - max(q.offs), what))
                    for lb, lc in dl:
                        if lb == ("c", 0) and lc + min(q.offs) > 0 and not nested(f, q, -(lc + min(q.offs))) and not apart(f, q.l, q.iv, ("c", 0)):
                            r.bad(key + "|start", "%s: %s stops before element %d of %s" % (q.where(), f.short, lc + min(q.offs) - 1, what))
            r.obligations += 1
    ranges(ctx, r)
    G = Guards(p, E)
    tab = json.load(open(os.path.join(os.path.dirname(__file__), "..", "tables", "passes.json")))
    G.check(r, tab)
    cbs = callbacks(p)
    for f in sorted(cbs, key=lambda f: f.name):
        r.obligations += 2
        for i, v in stops(f):
            r.bad("%s|stop" % f.short, "%s: %s ends the iteration it is called from: what follows in the isl object is left out" % (i.where(), f.short))
        if f.short in FILTERS:
            continue
        for i in skips(p, E, f):
            r.bad("%s|skip" % f.short, "%s: %s can return without having done anything with the element it was called for" % (i.where(), f.short))
    r.floor("isl_callbacks", len(cbs), 8)
    r.floor("passes", npass, 250)
    r.floor("passes_bounded_by_their_count", nfull, 180)
    return r
