"""C15: operations on unions treat every disjunct."""
from ..ctx import Result
from ..chain import Chain, params, nxt, NEXT
from ..dom import dominates
from ..term import loops, noreturn, atom, NULL

# operation: (parameter position among the constraint systems, operations the rest may be passed on to besides itself,
#             results that are final without the rest, only the end of the list is wanted)
OPS = {
    "pluto_constraints_free": (0,),
    "pluto_constraints_resize": (0,),
    "pluto_constraints_add_to_each": (0,),
    "pluto_constraints_simplify": (0,),
    "fourier_motzkin_eliminate": (0,),
    "fourier_motzkin_eliminate_smart": (0, ("fourier_motzkin_eliminate",)),
    "pluto_constraints_gaussian_eliminate": (0,),
    "pluto_constraints_copy": (1, ("pluto_constraints_dup",)),
    "pluto_constraints_dup": (0, ("pluto_constraints_copy",)),
    "pluto_constraints_print_single": (0,),
    "pluto_constraints_print": (0, ("pluto_constraints_print_single",)),
    "pluto_constraints_print_polylib": (0, ("pluto_constraints_print_polylib_without_num",)),
    "pluto_constraints_print_polylib_without_num": (0,),
    "pluto_constraints_compact_print": (0, ("pluto_constraints_compact_print_single",)),
    "pluto_constraints_compact_print_single": (0,),
    "print_polylib_visual_sets_internal": (0,),
    "print_polylib_visual_sets_internal_new": (0, ("print_polylib_visual_sets_internal",)),
    "print_polylib_visual_sets": (0, ("print_polylib_visual_sets_internal", "print_polylib_visual_sets_internal_new")),
    "print_polylib_visual_sets_new": (0, ("print_polylib_visual_sets_internal", "print_polylib_visual_sets_internal_new")),
    "pluto_constraints_add_inequality": (0,),
    "pluto_constraints_add_equality": (0,),
    "pluto_constraints_remove_dim": (0,),
    "pluto_constraints_add_dim": (0,),
    "pluto_constraints_add_lb": (0,),
    "pluto_constraints_add_ub": (0,),
    "pluto_constraints_set_var": (0,),
    "pluto_constraints_project_out": (0,),
    "pluto_constraints_interchange_cols": (0,),
    "pluto_constraints_num_in_list": (0,),
    "pluto_constraints_is_empty": (0, ("isl_set_from_pluto_constraints",), ("c:0",)),
    "pluto_constraints_get_const_lb": (0, (), ("c:0",)),
    "pluto_constraints_get_const_ub": (0, (), ("c:0",)),
    "pluto_constraints_unionize_simple": (0, (), (), True),
    "isl_set_from_pluto_constraints": (0,),
    "get_parametric_bounding_box": (0,),
}
# both operands go to other operations as a whole
WHOLE = {
    "pluto_constraints_unionize_simple": (1, ("pluto_constraints_dup",)),
    "pluto_constraints_union_isl": (None, ("isl_set_from_pluto_constraints",)),
    "pluto_constraints_difference_isl": (None, ("isl_set_from_pluto_constraints",)),
    "pluto_constraints_difference": (None, ("isl_set_from_pluto_constraints", "pluto_constraints_difference_isl")),
    "pluto_constraints_intersection_isl": (None, ("isl_set_from_pluto_constraints",)),
    "pluto_constraints_intersection": (None, ("isl_set_from_pluto_constraints", "pluto_constraints_intersection_isl")),
    "pluto_constraints_intersect_isl": (None, ("isl_set_from_pluto_constraints", "pluto_constraints_intersection_isl", "pluto_constraints_copy")),
    "pluto_constraints_unionize_isl": (None, ("pluto_constraints_union_isl", "pluto_constraints_copy")),
    "pluto_constraints_are_equal": (None, ("isl_set_from_pluto_constraints", "pluto_constraints_difference_isl",
                                           "pluto_constraints_difference")),
    "pluto_constraints_list_add": (None, ("pluto_constraints_dup",)),
    "pluto_stmt_alloc": (None, ("pluto_constraints_dup",)),
}
SYMMETRIC = {"pluto_constraints_interchange_cols": (1, 2)}
# operations that only make sense for a single system refuse a union
SINGLE = {
    "farkas_lemma_affine": (0,),
    "pluto_constraints_add": (0, 1),
    "pluto_constraints_add_to_each": (1,),
    "pluto_constraints_pretty_print": (0,),
    "pluto_constraints_cplex_print": (0,),
    "pluto_constraints_zero_row": (0,),
    "pluto_constraints_normalize_row": (0,),
    "pluto_constraints_negate_row": (0,),
    "pluto_constraints_negate_constraint": (0,),
    "check_redundancy": (0,),
}


def run(ctx):
    r = Result()
    r.rule = ("Union operations (table of operations and operands): on every path to a normal return the rest of the list is passed on to "
              "the same operation with the same other arguments, or walked to its end by a loop, or known to be absent, or the result is "
              "one that no further disjunct can change; results of the rest are used; operations for a single system refuse a union.")
    p = ctx.prog
    C = Chain(p, ctx.eff, set(OPS) | set(WHOLE) | set(SINGLE))
    n = rec = 0
    for name, spec in sorted(OPS.items()):
        f = p.fn(name)
        if f is None:
            continue
        n += 1
        pos, extra, final, tail = (spec + ((), (), False)[len(spec) - 1:])[:4]
        ks = params(f)
        if pos >= len(ks):
            continue
        k = ks[pos]
        ops = {name} | set(extra)
        r.obligations += 1
        bad = C.check(f, k, ops, final, tail)
        for i in bad:
            r.bad("%s|rest" % name, "%s: %s can return without having dealt with the disjuncts after the first of '%s'" % (i.where(), name, f.params[k]["name"]))
        r.samples.append("%s: every disjunct of '%s'" % (name, f.params[k]["name"]))
        for i, g, a in C.recursions(f, k, {name}):
            rec += 1
            r.obligations += 1
            T = C.terms(f)
            for j, v in enumerate(i.args):
                if j == a or j >= len(f.params):
                    continue
                t = T.t(v)
                own = ("p", j)
                if t == own or (t[0] == "add" and t[1] == own and t[2][0] == "c") or t[0] == "loc":
                    continue
                if name in SYMMETRIC and t[0] == "p" and t[1] in SYMMETRIC[name]:
                    continue
                if t == nxt(own) and j in ks:
                    continue
                r.bad("%s|arg%d" % (name, j), "%s: %s passes the rest of the union on with a different '%s'" % (i.where(), name, f.params[j]["name"]))
            if str(i.ty).startswith("i") and str(f.retty) != "void" and not used(f, i.id):
                r.bad("%s|result" % name, "%s: %s ignores what it finds for the rest of the union" % (i.where(), name))
    for name, (pos, ops) in sorted(WHOLE.items()):
        f = p.fn(name)
        if f is None:
            continue
        n += 1
        ks = params(f)
        for k in ks if pos is None else [ks[pos]]:
            r.obligations += 1
            for i in C.check(f, k, set(ops)):
                r.bad("%s|%d" % (name, k), "%s: %s can return without having dealt with the whole of '%s'" % (i.where(), name, f.params[k]["name"]))
    single = 0
    if ctx.config != "ndebug":
        for name, pos in sorted(SINGLE.items()):
            f = p.fn(name)
            if f is None:
                continue
            ks = params(f)
            for q in pos:
                if q >= len(ks):
                    continue
                k = ks[q]
                single += 1
                r.obligations += 1
                for i in C.check(f, k, {name}):
                    r.bad("%s|single%d" % (name, q), "%s: %s treats only the first disjunct of '%s' without refusing a union" % (i.where(), name, f.params[k]["name"]))
        r.floor("single_system_operands", single, 8)
    # no disjunct is treated twice: what is passed on to the whole list is not passed on to its rest again
    once = 0
    for name in sorted(set(OPS) | set(WHOLE)):
        f = p.fn(name)
        if f is None:
            continue
        for k in params(f):
            once += 1
            r.obligations += 1
            for i, why in twice(C, f, k, name):
                r.bad("%s|twice" % name, "%s: %s treats the disjuncts after the first of '%s' more than once (%s)" % (i.where(), name, f.params[k]["name"], why))
    # every loop over a list of disjuncts ends at the end of the list
    w = 0
    for f in p.repo_functions:
        T = C.terms(f)
        for l in loops(f).values():
            for i in l.header.insts:
                if i.op != "phi" or i.ty != "ptr":
                    continue
                me = ("v", T.chain, i.id)
                if not any(T.t(v) == nxt(me) for v, b in i.d["inc"] if b in l.blocks):
                    continue
                w += 1
                r.obligations += 1
                for eb, s in l.exits():
                    if noreturn(s):
                        continue
                    t = eb.insts[-1]
                    ok = t.op == "br" and any(
                        key[0] == "eq" and key[1] in (me, nxt(me)) and key[2] in (NULL, ("c", 0)) and tr
                        for key, tr in atom(T, f, t.d.get("cond"), t.succ[0] == s.id))
                    if not ok and f.short not in OPS:
                        r.bad("%s|walk" % f.short, "%s: the loop of %s over the disjuncts can end before the last" % (t.where(), f.short))
    r.floor("union_operations", n, 30)
    r.floor("recursions", rec, 12)
    r.floor("list_walks", w, 4)
    r.coverage["paths"] = C.paths
    return r


def used(f, v):
    return any(v in i.ops or v in i.args or any(x == v for x, b in i.d.get("inc", ())) or i.d.get("cond") == v for i in f.allinsts())


# operations on the whole list which are not the same when done twice
EFFECT = {"pluto_constraints_add_inequality", "pluto_constraints_add_equality", "pluto_constraints_add_constraint",
          "pluto_constraints_add_dim", "pluto_constraints_add_leading_dims", "pluto_constraints_remove_dim", "pluto_constraints_project_out",
          "pluto_constraints_interchange_cols", "fourier_motzkin_eliminate", "fourier_motzkin_eliminate_smart",
          "pluto_constraints_gaussian_eliminate", "pluto_constraints_add_lb", "pluto_constraints_add_ub", "pluto_constraints_set_var",
          "pluto_constraints_add_to_each", "pluto_constraints_print_single",
          "pluto_constraints_compact_print_single", "pluto_constraints_print_polylib_without_num"}


def twice(C, f, k, name):
    T = C.terms(f)
    P = ("p", k)
    whole, rest, off = [], [], []
    for i in f.allinsts():
        if i.op == "call":
            g = C.p.callee(i)
            if g is None:
                continue
            for a, v in enumerate(i.args):
                t = T.t(v)
                if a not in params(g):
                    continue
                if t == P and g.short in EFFECT and g is not f:
                    whole.append(i)
                elif t == nxt(P) and g.short in EFFECT | {name}:
                    rest.append(i)
                else:
                    l = walked(C, f, T, t, P)
                    if l is not None and i.bb.id in l.blocks and g.short in EFFECT:
                        yield i, "in a loop over them"
        elif i.op == "store" and T.t(i.ops[1]) == ("fld", P, NEXT) and T.t(i.ops[0]) == NULL:
            off.append(i)
    for i in rest:
        if name not in EFFECT and C.p.callee(i).short not in EFFECT:
            continue
        for j in whole + rest:
            if j is i or not follows(f, j, i):
                continue
            if j in whole and any(before(f, o, j) for o in off):
                continue
            yield i, "also at line %d" % j.line()


def walked(C, f, T, t, P):
    if t[0] != "v" or not isinstance(t[-1], int) or t[-1] not in f.insts:
        return None
    i = f.insts[t[-1]]
    l = loops(f).get(i.bb.id)
    if i.op == "phi" and l is not None and {T.t(v) for v, b in i.d["inc"] if b in l.blocks} == {nxt(t)}:
        return l
    return None


def follows(f, a, b):
    if a.bb is b.bb and a.idx < b.idx:
        return True
    seen, work = set(), list(a.bb.succ)
    while work:
        x = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x is b.bb:
            return True
        work += x.succ
    return False


def before(f, a, b):
    return a.bb is b.bb and a.idx < b.idx or (a.bb is not b.bb and dominates(f, a.bb, b.bb))
