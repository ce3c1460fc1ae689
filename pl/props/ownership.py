"""Shared by C03-C05: run the ownership engine and select reports."""
from ..ctx import Result


def select(ctx, kinds, rkinds, rule, least_res):
    r = Result()
    r.rule = rule
    O = ctx.own
    reps = ctx.reports
    if O.overflow > 8:
        from ..front import AnalysisBroken
        raise AnalysisBroken("%d functions exceeded the state bound" % O.overflow)
    for x in reps:
        if x.kind in kinds and (rkinds is None or x.rkind in rkinds):
            r.bad(x.key(), str(x))
    r.floor("functions_with_ownership_summary", len(O.fns), 350)
    r.floor("resources_followed", O.checked, least_res)
    r.coverage["path_states_explored"] = O.states_explored
    r.coverage["isl_contracts"] = len(O.isl)
    r.coverage["functions_over_the_state_bound_not_decided"] = O.overflow
    r.obligations = O.checked
    return r
