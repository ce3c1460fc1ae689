#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current source by static analysis.
exit 0: holds (prints KNOWN-FINDING lines for listed findings)
exit 1: VIOLATION line(s)      exit 2: the analysis could not be carried out
"""
import importlib, json, os, sys, time, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from pl import front, ctx as C

# configurations of the build: the one /opt/vp/build.sh makes, and for the
# thorough tier also the ones with assertions compiled out and without GLPK
CONFIGS = {"default": [], "ndebug": ["-DNDEBUG"], "noglpk": ["-UGLPK"]}


def known(pid):
    r = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\w+) key=<([^>]*)> (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


def one(pid, tier, ctxs):
    t0 = time.time()
    mod = importlib.import_module("pl.props." + pid.lower())
    configs = ["default"]
    if tier == "thorough":
        configs += [c for c in ("ndebug", "noglpk") if c in getattr(mod, "CONFIGS", ("ndebug", "noglpk"))]
    viol = []
    cov = {}
    obligations = 0
    samples = []
    rule = ""
    for cfg in configs:
        c = ctxs.get(cfg)
        if c is None:
            c = ctxs[cfg] = C.Ctx(tier, cfg, CONFIGS[cfg])
        c.tier = tier
        r = mod.run(c)
        for v in r.violations:
            if not any(x.key == v.key for x in viol):
                viol.append(v)
        cov[cfg] = r.coverage
        obligations += r.obligations
        rule = r.rule
        samples += r.samples[:8]
    kf = known(pid)
    new = [v for v in viol if v.key not in kf]
    old = [v for v in viol if v.key in kf]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "proof" if getattr(mod, "LEVEL", "other") == "proof" else "other",
        "coverage": {
            "explanation": rule,
            "technique": "static analysis of the compiler's intermediate representation of /repo's current sources (nothing is executed)",
            "units_analysed": len(ctxs["default"].prog.units),
            "functions_analysed": len(ctxs["default"].prog.repo_functions),
            "configurations": cov,
            "obligations": obligations,
            "discharged": obligations - len(viol),
            "checker_cmd": "python3 /verif/check.py %s --tier %s" % (pid, tier),
            "trusted_base": ["clang 18 front end and mem2reg", "/verif/pl", "the contracts of libc, glpk and isl as declared in their headers"],
            "violations": [v.text for v in new],
            "known_findings": [v.text for v in old],
            "sample_obligations": samples,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[v.key]))
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".replay.txt")
        with open(rp, "w") as f:
            f.write("rule: %s\nre-run: python3 /verif/check.py %s\n\n" % (rule, pid))
            for v in new:
                f.write(v.text + "\n  key=<%s>\n" % v.key)
        for v in new[:20]:
            print("  " + v.text + "   key=<%s>" % v.key)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d %.1fs" % (pid, obligations, time.time() - t0))
    return 0


def main():
    args = sys.argv[1:]
    tier = "quick"
    if "--tier" in args:
        k = args.index("--tier")
        tier = args[k + 1]
        del args[k:k + 2]
    if args == ["all"]:
        args = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
        args = [a for a in args if os.path.exists(os.path.join(HERE, "pl", "props", a.lower() + ".py"))]
    ctxs = {}
    rc = 0
    for pid in args:
        try:
            rc = max(rc, one(pid, tier, ctxs))
        except front.AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
            rc = 2
        except Exception:
            traceback.print_exc()
            rc = 2
    sys.exit(rc)


main()
