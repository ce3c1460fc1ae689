"""The rule of C20-C26: what the functions do is what the reviewed record says."""
import json, os
from . import golden
from .ctx import Result

RULE = ("For each function of this part, the normal form of its effects is computed from the current source: per place that can be "
        "changed (named from the parameters), per condition on the values read, the value stored, or the call made, for all rounds of "
        "the loops around it.  The normal form abstracts from the order of independent statements, helper functions, temporaries, the "
        "form of loops and conditions and of index arithmetic; it is equal to the specified normal form (tables/%s.json) in every case "
        "that is feasible in both.  Cases whose values the normal form cannot express (values carried round loops) are not decided.")


def run(ctx, table, about):
    r = Result()
    r.rule = about + "  " + RULE % table
    T = golden.HERE
    rec, known = (json.load(open(os.path.join(T, t + ".json"))) for t in (table, "known"))
    bad, done, obl, skipped = golden.check(ctx.prog, ctx.eff, rec, known)
    here = golden.functions(ctx.prog)
    for n, part, fc, now, then in bad:
        f = here[n]
        a, b = set(now), set(then)
        more, less = [x for x in now if x not in b], [x for x in then if x not in a]
        short = lambda xs: "; ".join(x[:240] for x in xs[:2]) or "nothing"
        if set(more) == set(less):
            text = "the order of what it does changed: %s" % short(now)
        else:
            text = "it does: %s; specified: %s" % (short(more), short(less))
        cond = "" if not fc else " when " + "; ".join("%s in %s" % (k, v) for k, v in sorted(fc.items()))[:300]
        r.bad("%s %s" % (n, part), "%s: %s, effect on %s%s: %s" % ("%s:%d" % (f.file, f.line), n, part[:120], cond, text))
    r.obligations += obl
    r.floor("functions_compared", len(done), len(rec) // 2)
    r.coverage["cases"] = obl
    r.coverage["not_decided"] = len(skipped)
    r.samples = ["%s: %d places" % (n, len(rec[n]["parts"])) for n in done][:60]
    return r
