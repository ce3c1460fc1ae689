"""C06: queries and operands declared constant leave the program representation alone."""
import os, re
from ..ctx import Result
from .. import effects

TYPES = {"pluto_constraints", "pluto_matrix", "statement", "plutoProg", "dependence", "band", "pLoop", "graph",
         "pluto_access", "scc", "remapping", "char", "vertex"}
# declared "const T *" but an in-place operation by its documented purpose
MODIFIERS = {("pluto_matrix_read", 1), ("pluto_separate_stmt", 1)}


def base(t):
    return re.sub(r"\bconst\b|\*|\s|\[\]", "", t)


def run(ctx):
    r = Result()
    r.rule = ("For every operand a function declares constant, and every operand of the query functions listed in "
              "tables/readonly.txt (confirmed by reading), the interprocedural write/free summary contains no location "
              "reachable from that operand.")
    p, E = ctx.prog, ctx.eff
    table = {}
    for l in open(os.path.join(os.path.dirname(__file__), "..", "tables", "readonly.txt")):
        n, k, t = l.split()
        table.setdefault(n, []).append((int(k), t))
    nconst = ntab = 0
    for f in p.repo_functions:
        if f.linkonce or not f.sig or len(f.sig) != len(f.params) + 1:
            continue
        chk = {}
        for k, prm in enumerate(f.params):
            if prm["ty"] != "ptr":
                continue
            t = f.sig[k + 1]
            if t.startswith("const ") and base(t) in TYPES and (f.short, k) not in MODIFIERS:
                chk[k] = "declared constant"
                nconst += 1
        for k, t in table.get(f.short, []):
            if k < len(f.params) and f.sig[k + 1].replace(" ", "").replace("const", "") == t.replace("const", ""):
                if k not in chk:
                    ntab += 1
                chk.setdefault(k, "operand of a query")
        for path, w in E.eff[f.name].definite.items():
            if path[0][0] == "a" and path[0][1] in chk:
                r.bad("%s|%s" % (f.short, effects.fmt(f, path)),
                      "%s: %s modifies %s, reachable from '%s' (%s); written via %s" %
                      (w.where(), f.short, effects.fmt(f, path), f.vname("a%d" % path[0][1]), chk[path[0][1]], chain(E, p, f, path, w)))
        r.obligations += len(chk)
    r.floor("operands_declared_constant", nconst, 90)
    r.floor("operands_of_listed_queries", ntab, 120)
    return r


def chain(E, p, f, path, w, depth=0):
    if w.op != "call" or depth > 6:
        return "%s:%d" % (f.short, w.line())
    c = p.callee(w)
    return "%s -> %s" % (f.short, c.short if c and not c.decl else w.callee)
