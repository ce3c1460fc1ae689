"""C13: destructors release everything their argument owns."""
from ..ctx import Result
from ..must import Must, D, fld, base_callee, line
from ..term import show, contains, mkadd, loops
from .c11 import ld, cnt, PC, PM, ST
from ..dom import dominates

FREE = ("free",)
OPTFREE = ("free",)


def obj(*names):
    return ("one", names)


def arr(count, inner):
    return ("arr", count, inner)


RAW = obj("free")
CST, MAT = obj("pluto_constraints_free"), obj("pluto_matrix_free")
ACC, DEP, STM, LOOP, GRAPH = (obj(x) for x in ("pluto_access_free", "pluto_dep_free", "pluto_stmt_free", "pluto_loop_free", "graph_free"))
OWNED = {
    PC: {"buf": RAW, "val": RAW, "is_eq": RAW, "names": arr(cnt(PC, "ncols", -1), RAW), "next": CST},
    PM: {"val": arr(cnt(PM, "alloc_nrows"), RAW)},
    "dependence": {"dpolytope": CST, "bounding_poly": CST, "src_unique_dpolytope": CST, "depsat_poly": CST, "satvec": RAW,
                   "dirvec": RAW, "cst": CST, "bounding_cst": CST},
    ST: {"domain": CST, "iterators": arr(cnt(ST, "dim"), RAW), "text": RAW, "is_orig_loop": RAW, "trans": MAT, "evicted_hyp": MAT,
         "hyp_types": RAW, "reads": arr(cnt(ST, "nreads"), ACC), "writes": arr(cnt(ST, "nwrites"), ACC), "intra_stmt_dep_cst": CST},
    "pluto_access": {"name": RAW, "mat": MAT},
    "plutoProg": {"stmts": arr(cnt("plutoProg", "nstmts"), STM), "deps": arr(cnt("plutoProg", "ndeps"), DEP),
                  "transdeps": arr(cnt("plutoProg", "ntransdeps"), DEP), "data_names": arr(cnt("plutoProg", "num_data"), RAW),
                  "params": arr(cnt("plutoProg", "npar"), RAW), "ddg": GRAPH, "fcg": GRAPH, "hProps": RAW, "param_context": CST,
                  "codegen_context": CST, "globcst": CST, "decls": RAW, "scaled_dims": RAW, "total_coloured_stmts": RAW,
                  "par_preventing_adj_mat": MAT, "dep_dist_mat": MAT},
    "pLoop": {"stmts": RAW},
    "band": {"loop": LOOP},
    "graph": {"vertices": RAW, "adj": MAT, "sccs": RAW},
    "pluto_dep_list": {"next": obj("pluto_deps_list_free")},
    "pluto_constraints_list": {"constraints": CST, "deps": obj("pluto_deps_list_free"), "next": obj("pluto_constraints_list_free")},
    "plutoContext": {"options": obj("pluto_options_free")},
    "plutoOptions": {"out_file": RAW},
    "remapping": {"stmt_inv_matrices": arr(cnt("remapping", "nstmts"), MAT), "stmt_divs": arr(cnt("remapping", "nstmts"), RAW)},
}
COMPANION = {ST + ".is_orig_loop": ST + ".iterators"}   # both are null exactly when the statement has no dimensions
# function: (struct, whether it releases the object itself)
DESTRUCTORS = {
    "pluto_constraints_free": (PC, True), "pluto_matrix_free": (PM, True), "pluto_dep_free": ("dependence", True),
    "pluto_stmt_free": (ST, True), "pluto_access_free": ("pluto_access", True), "pluto_prog_free": ("plutoProg", True),
    "pluto_loop_free": ("pLoop", True), "pluto_band_free": ("band", True), "graph_free": ("graph", True),
    "pluto_deps_list_free": ("pluto_dep_list", True), "pluto_constraints_list_free": ("pluto_constraints_list", True),
    "pluto_context_free": ("plutoContext", True), "pluto_options_free": ("plutoOptions", True),
    "pluto_remapping_free": ("remapping", False),
}
ARRAYS = {"pluto_loops_free": LOOP, "pluto_bands_free": obj("pluto_band_free")}
RAWFREE = {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv"}


class Release(Must):
    def is_release(self, fr, i, names, what):
        if i.op != "call" or not i.args:
            return False
        n = self.p.cname(i)
        if not (n in names or ("free" in names and i.callee in RAWFREE)):
            return False
        return fr.T.t(i.args[0]) == what

    def events(self, fr, P, a, kind, top=True, elems=False, count=None):
        """P: the pointer to release; a: the location it is kept in (or None)"""
        f, T = fr.f, fr.T
        ev, hd, why = set(), {}, []
        if kind[0] == "one" or not elems:
            names = kind[1] if kind[0] == "one" else ("free",)
            for i in f.calls():
                if self.is_release(fr, i, names, P):
                    ev.add(i)
                elif i.callee in RAWFREE and T.t(i.args[0]) == P:
                    why.append("line %d releases only its outermost block" % i.line())
            if a is not None and a[2] in fr.walk.values():
                for k, v in fr.walk.items():
                    if v == a[2]:
                        hd[f.insts[k].bb.id] = "good"
        else:
            counts = [kind[1](D)] if count is None else [count]

            def inner_events(iv, l):
                loc = ("idx", P, iv)
                e, h, w = self.events(fr, ("ld", loc), None, kind[2], False)
                e = {i for i in e if i.bb.id in l.blocks}
                return e, {x: y for x, y in h.items() if x in l.blocks}, w

            g, bad = self.loops_over(fr, counts, inner_events, lambda iv: (("idx", P, iv), []))
            hd.update(g)
            why += bad
        if top:
            for i in f.calls():
                sub = self.callee_frame(fr, i)
                if sub is None:
                    continue
                ok, w = self.must(sub, P, a, kind, elems, count)
                if ok:
                    ev.add(i)
        return ev, hd, why

    def must(self, fr, P, a, kind, elems=False, count=None):
        ev, hd, why = self.events(fr, P, a, kind, True, elems, count)
        if not ev and not hd:
            return False, why
        counts = []
        if kind[0] == "arr":
            counts = [kind[1](D) if count is None else count]
        elif a is not None and a[2] in COMPANION:
            counts = [("ld", fld(D, COMPANION[a[2]]))]
        heads = set(hd)
        if fr.walk and not elems:
            # inside a list walk every iteration has to release it
            pass
        b = self.search(fr, a if a is not None else ("none",), counts, lambda i: i in ev, heads)
        if b is None:
            return True, why
        return False, why + ["a path to line %d does not" % line(b)]


def run(ctx):
    r = Result()
    r.rule = ("For every destructor, each field of the struct that owns memory is released on every path, by the destructor of its "
              "type and for every element the object has; only a null field (or an absent object) may skip it; the object itself is "
              "released too, and arrays after their elements.")
    p, E = ctx.prog, ctx.eff
    M = Release(p, E)
    n = 0
    for name, (st, self_) in sorted(DESTRUCTORS.items()):
        f = p.fn(name)
        if f is None or st not in p.structs:
            continue
        n += 1
        fr = M.frame(f, {0: D}, ((f.name,),), False)
        have = [m[0] for m in p.structs[st]]
        for fn, kind in OWNED[st].items():
            if fn not in have:
                continue
            a = fld(D, st + "." + fn)
            for elems in ((False, True) if kind[0] == "arr" else (False,)):
                r.obligations += 1
                ok, why = M.must(fr, ("ld", a), a, kind, elems)
                what = "the elements of " if elems else ""
                r.samples.append("%s releases %s%s.%s" % (name, what, st, fn))
                if not ok:
                    r.bad("%s|%s%s" % (name, fn, "[]" if elems else ""), "%s:%d: %s does not release %s%s on every path (%s)" % (
                        f.file, f.line, name, what, fn, "; ".join(dict.fromkeys(why)) or "never released"))
            if kind[0] == "arr":
                late(M, fr, a, kind, name, fn, r)
        if self_:
            r.obligations += 1
            ok, why = M.must(fr, D, None, RAW)
            if not ok:
                r.bad("%s|self" % name, "%s:%d: %s does not release the object itself on every path (%s)" % (
                    f.file, f.line, name, "; ".join(why) or "never released"))
    for name, inner in sorted(ARRAYS.items()):
        f = p.fn(name)
        if f is None or len(f.params) < 2:
            continue
        fr = M.frame(f, {0: D}, ((f.name,),), False)
        kind = arr(lambda o: ("p", 1), inner)
        for elems in (False, True):
            r.obligations += 1
            ok, why = M.must(fr, D, None, kind, elems)
            if not ok:
                r.bad("%s|%s" % (name, "[]" if elems else "array"), "%s:%d: %s does not release %s on every path (%s)" % (
                    f.file, f.line, name, "every element" if elems else "the array", "; ".join(why) or "never released"))
    r.floor("destructors", n, 12)
    r.coverage["functions_walked"] = M.analysed
    return r


def late(M, fr, a, kind, name, fn, r):
    """elements released after their array"""
    ev, hd, w = M.events(fr, ("ld", a), a, kind, False, False)
    ev2, hd2, w2 = M.events(fr, ("ld", a), a, kind, False, True)
    for i in ev:
        for h in hd2:
            hb = fr.f.blocks[h]
            if i.bb is not hb and dominates(fr.f, i.bb, hb):
                r.bad("%s|%s|order" % (name, fn), "%s: %s releases the array %s before its elements" % (i.where(), name, fn))
