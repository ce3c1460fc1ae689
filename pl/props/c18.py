"""C18: what can be absent is looked at before it is used."""
from ..ctx import Result
from ..must import base_callee
from ..nulls import Nulls, EXTERN, Z

# members that are absent in objects of ordinary use: not computed yet, not given, or the end of a list
OPTIONAL = {
    "pluto_constraints.names", "pluto_constraints.next", "dependence.bounding_cst", "dependence.src_acc", "dependence.dest_acc",
    "dependence.src_unique_dpolytope", "dependence.depsat_poly", "dependence.cst", "dependence.satvec", "statement.evicted_hyp",
    "statement.intra_stmt_dep_cst", "statement.text", "statement.pstmt", "statement.parent_compute_stmt", "pluto_constraints_list.next",
    "pluto_constraints_list.deps", "pluto_dep_list.next", "plutoOptions.out_file", "plutoProg.globcst", "scc.sol",
}
# reviewed: the member is there by then (computed by an earlier pass the analysis cannot see)
PRESENT = {
    ("get_permutability_constraints", "dependence.cst"),         # every dependence that is not skipped has had its constraints computed
    ("pluto_create_tile_schedule_band", "dependence.satvec"),    # allocated by the satisfaction computation that found the bands
    ("get_common_parallel_dims_for_sccs", "scc.sol"),            # kept for parallel components only
}
# reviewed: the result cannot be absent at this call (one call each)
ASSUMED = {"get_dep_distance_bounding_constraints_for_scc", "dfp_get_scc_ortho_constraints", "get_common_dims", "get_best_vectorizable_loop"}
# reviewed: the use is under the condition under which the variable was set (the callee tests the same option)
SET = {"rebuild_scc_cluster_fcg",      # has_parallel_hyperplane is used with typed fusion only
       "introduce_skew"}               # skew_dims is NULL only after the last level
# operations that take an absent operand (function, parameter)
TOLERANT = [
    ("pluto_constraints_free", 0), ("pluto_constraints_add", 1), ("pluto_constraints_dup_single", 0), ("pluto_constraints_dup", 0),
    ("pluto_constraints_set_names", 1), ("pluto_constraints_num_in_list", 0), ("pluto_constraints_compact_print_single", 1),
    ("pluto_constraints_compact_print", 1), ("set_glpk_constraints_from_pluto_constraints", 0), ("pluto_constraints_add_dim", 2),
    ("pluto_matrix_free", 0), ("print_polylib_visual_sets_internal", 2), ("pluto_dep_list_alloc", 0), ("pluto_deps_list_free", 0),
    ("pluto_deps_list_dup", 0), ("pluto_constraints_list_free", 0), ("pluto_constraints_set_names_range", 1),
    ("isl_set_to_pluto_constraints", 0), ("graph_alloc", 1), ("pluto_affine_function_print", 3), ("get_colouring_dim", 0),
    ("get_lin_ind_constraints", 0), ("pluto_find_iss", 3), ("pluto_matrix_dup", 0), ("pluto_affine_function_sprint", 2),
    ("pluto_prog_from_isl_domains_dependences", 2), ("pluto_prog_from_isl_domains_dependences", 3), ("compute_deps_isl", 8),
    ("compute_deps_isl", 9), ("compute_deps_isl", 10), ("pluto_schedule_str", 4), ("pluto_stmt_alloc", 1), ("pluto_stmt_alloc", 2),
    ("pluto_band_free", 0), ("pluto_access_print", 1), ("pluto_add_stmt", 2), ("pluto_access_dup", 0), ("pluto_access_free", 0),
    ("get_const_bound_difference", 0), ("get_parametric_extent_const", 5), ("get_parametric_extent", 5),
    ("pluto_transform", 2), ("pluto_transform", 3),
]


def run(ctx):
    r = Result()
    r.rule = ("The result of every call that can be absent, every variable that starts as NULL, every optional member nobody has looked at yet, and every optional operand is "
              "assumed to be NULL and followed along all paths that remain possible; reaching a dereference (here or in a callee) is a "
              "violation. No operation is given a literal NULL it dereferences.")
    p = ctx.prog
    N = Nulls(p)
    nc = nl = na = nt = nv = 0
    used = {}
    for f in p.repo_functions:
        for i in f.calls():
            g = p.callee(i)
            own = g is not None and not g.decl and bool(g.blocks)
            if i.ty == "ptr" and (base_callee(i) in EXTERN or own and N.maybe(g)):
                nc += 1
                x = N.follow(f, (i.bb, i.idx + 1), N.result(f, i))
                if x:
                    name = g.short if own else base_callee(i)
                    k = (f.short, name)
                    used[name] = used.get(name, 0) + 1
                    if name not in ASSUMED or used[name] > 1:
                        r.bad("%s|result %s" % k, "%s: %s: what %s returned can be absent here, and is %s at %s without having been looked at" %
                              (i.where(), f.short, name, x[2], x[0].where()))
            if own:
                for k, a in enumerate(i.args):
                    if a == "null" and k < len(g.params):
                        na += 1
                        known = tuple((j, N.val(f, y, {})) for j, y in enumerate(i.args) if j != k and j < len(g.params) and
                                      not isinstance(y, dict) and isinstance(N.val(f, y, {}), int))
                        if N.needs(g, k, known):
                            r.bad("%s|null %s %d" % (f.short, g.short, k), "%s: %s gives %s no operand %d, which it dereferences" %
                                  (i.where(), f.short, g.short, k))
        if f.linkonce:
            continue
        T = N.terms(f)
        for i in f.allinsts():
            if i.op == "phi" and i.ty == "ptr":
                for v, pb in i.d["inc"]:
                    if v == "null":
                        nv += 1
                        x = N.follow(f, (i.bb, 0), N.edge(f, f.blocks[pb], i.bb), pred=pb, mark=i.id)
                        if x and f.short not in SET:
                            r.bad("%s|variable %s" % (f.short, x[2]), "%s: %s: a variable that can still be NULL here is %s" %
                                  (x[0].where(), f.short, x[2]))
            if i.op in ("load", "store"):
                v, n = i.ops[0 if i.op == "load" else 1], 0
                while isinstance(v, int) and f.insts[v].op in ("getelementptr", "bitcast") and n < 12:
                    v, n = f.insts[v].ops[0], n + 1
                if v == "null":
                    r.bad("%s|nothing" % f.short, "%s: %s: a variable that is always NULL here is dereferenced" % (i.where(), f.short))
            if i.op != "load" or isinstance(i.ops[0], dict) or i.ty != "ptr":
                continue
            t = T.t(i.ops[0])
            if t[0] != "fld" or t[2] not in OPTIONAL:
                continue
            nl += 1
            if (f.short, t[2]) in PRESENT or not N.unchecked(f, i):
                continue
            x = N.follow(f, (i.bb, i.idx + 1), {i.id: Z})
            if x:
                r.bad("%s|member %s" % (f.short, t[2]), "%s: %s: %s can be absent here, and is %s at %s without having been looked at" %
                      (i.where(), f.short, t[2], x[2], x[0].where()))
    for name, k in TOLERANT:
        for f in p.repo_functions:
            if f.short == name and f.blocks and k < len(f.params) and f.params[k]["ty"] == "ptr":
                nt += 1
                x = N.follow(f, (f.blocks[0], 0), {"a%d" % k: Z})
                if x:
                    r.bad("%s|operand %d" % (name, k), "%s: %s: operand %d can be absent, and is %s without having been looked at" %
                          (x[0].where(), name, k, x[2]))
    r.floor("calls_whose_result_can_be_absent", nc, 50)
    r.floor("loads_of_optional_members", nl, 120)
    r.floor("absent_operands", na, 15)
    r.floor("optional_parameters", nt, 25)
    r.floor("variables_that_start_absent", nv, 25)
    r.obligations = nc + nl + na + nt + nv
    r.samples = ["members: " + ", ".join(sorted(OPTIONAL))]
    return r
