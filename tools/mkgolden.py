#!/usr/bin/env python3
"""mkgolden.py: writes the record of what the functions in pl/groups.py do (only on a reviewed tree)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from pl import ctx, golden, what
from pl.groups import GROUPS
c = ctx.Ctx()
known = golden.describe(c.prog, c.eff)
T = os.path.join(HERE, "pl", "tables")
json.dump(sorted({f.short for f in c.prog.repo_functions}), open(os.path.join(T, "names.json"), "w"), indent=0)
golden.write(os.path.join(T, "known.json"), known)
here = golden.functions(c.prog)
for g, names in GROUPS.items():
    ok = {}
    for n in names:
        if n not in here:
            print(g, n, "is not there")
            continue
        try:
            r = golden.record(c.prog, c.eff, [n], known)[n]
        except what.TooMany:
            print(g, n, "has too many paths")
            continue
        rows = [x for part, rs in r["parts"].items() for x in rs]
        if not any(x[1] for x in rows) or any("std::" in y or "__gnu" in y for x in rows for y in list(x[0]) + list(x[1])):
            print(g, n, "cannot be expressed")
            continue
        if len(rows) > 60:
            print(g, n, "%d cases" % len(rows))
        ok[n] = r
    golden.write(os.path.join(T, g.lower() + ".json"), ok)
    print(g, len(ok), "functions", sum(len(x) for r in ok.values() for x in r["parts"].values()), "cases")
