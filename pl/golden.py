"""Comparison of what functions do now with the reviewed record of what they do.

The record (pl/tables/*.json) holds, per function, the normal form of its effects
(see what.py).  It is compared with the normal form of the current source: a
difference is reported only where both are known completely (no loop-carried
value or call the normal form cannot express) and the functions they mention are
still there with the same parameters."""
import json, os, re
from . import what, loose
from .term import loops

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables")
VAGUE = re.compile(r"undef\(|self\(|var\(|<\?>|\bx\(|(?<![a-z])n\(|\bacc\(")
UNSET = re.compile(VAGUE.pattern.replace(r"undef\(|", ""))      # a variable that is not set is known
ANY = {"undef", "self", "var", "x", "n", "acc"}
WORD = re.compile(r"([A-Za-z_][A-Za-z0-9_]*)\(")


class Eff:
    def __init__(self, writes, frees):
        self.writes, self.frees = writes, frees


def describe(prog, E):
    """of every function: parameters, what it may change, and whether it is entered (small ones without effects)"""
    out = {}
    for n, f in functions(prog).items():
        e = E.eff[f.name]
        enter = f.internal or (not e.writes and not e.frees and f.retty not in ("void", "ptr") and not loops(f))
        out[n] = {"sig": sig(f), "enter": enter}
        if not enter:
            out[n]["writes"] = sorted([[w[0][1]] + list(w[1:]) for w in e.writes if w[0][0] == "a"])
            out[n]["frees"] = bool(e.frees)
    return out


def functions(prog):
    return {f.short: f for f in prog.repo_functions if not f.decl and f.blocks and not f.linkonce}


def engine(prog, E, known, but=()):
    """known: the functions of the record; others (and but) are entered"""
    stop = [n for n, k in known.items() if not k["enter"] and n not in but]
    writes = {n: Eff([(("a", w[0]),) + tuple(w[1:]) for w in known[n]["writes"]], known[n]["frees"]) for n in stop}
    return what.What(prog, E, stop=stop, writes=writes)


def sig(f):
    return [q["ty"] for q in f.params] + [f.retty]


def norm(s):
    """as read from a table"""
    return {r: [({k: (v if isinstance(v, bool) else (v[0], v[1], tuple(v[2]))) for k, v in fc.items()}, tuple(es)) for fc, es in rows]
            for r, rows in s.items()}


def record(prog, E, names, known=None):
    known = known or describe(prog, E)
    W, here = engine(prog, E, known), functions(prog)
    return {n: {"sig": sig(here[n]), "parts": what.summary(W, here[n])} for n in names}


def write(path, rec):
    with open(path, "w") as f:
        f.write("{\n" + ",\n".join('%s: %s' % (json.dumps(n), json.dumps(rec[n], indent=1, sort_keys=True)) for n in sorted(rec)) + "\n}\n")


def vague(fc, es, rx=VAGUE):
    return any(rx.search(x) for x in es) or any(rx.search(k) for k in fc)


def words(xs):
    return {w for x in xs for w in WORD.findall(x)} | {x.split()[0] for x in xs if x}


def check(prog, E, rec, known):
    """-> differences [(function, part, facts, now, then)], functions compared, obligations, skipped {function: why}"""
    W, here = engine(prog, E, known), functions(prog)
    gone = {n for n, s in known.items() if n not in here or sig(here[n]) != s["sig"]}
    bad, done, obl, skipped = [], [], 0, {}
    for n, r in sorted(rec.items()):
        f = here.get(n)
        if f is None:
            skipped[n] = "not there any more"
            continue
        if sig(f) != r["sig"]:
            skipped[n] = "its parameters changed"
            continue
        then = norm(r["parts"])
        old = {w for rows in then.values() for fc, es in rows for w in words(list(es) + list(fc))}
        but, ds = set(), None
        for _ in range(3):
            try:
                now = norm(what.summary(engine(prog, E, known, but) if but else W, f))
            except what.TooMany:
                skipped[n] = "too many paths"
                ds = []
                break
            except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError) as e:
                skipped[n] = "not expressible (%s)" % type(e).__name__
                ds = []
                break
            ds = what.differ(now, then)
            if not ds:
                break
            # calls of known functions that are new here: what they do counts
            new = {w for part, fc, a, b in ds for w in words(list(a) + list(fc)) if w in known and w not in old and w not in what.CHANGES} - but
            if not new:
                break
            but |= new
        if n in skipped:
            continue
        done.append(n)
        obl += sum(len(x) for x in then.values())
        if any(p.startswith("NULL") for p in list(now) + list(then)):
            # the end of a list: any element of it
            ds = [d for d in ds if not any("->next :=" in x for x in list(d[2]) + list(d[3]))]
        there = {part for part, fc, a, b in ds}
        for part, fc, a, b in ds:
            if vague(fc, a, UNSET) or vague({k: v for k, v in fc.items() if "undef(" not in k}, b) or VAGUE.search(part) or part.startswith("NULL"):
                skipped[n + " " + part] = "not expressible"
            elif (words(list(a) + list(b) + list(fc))) & gone:
                skipped[n + " " + part] = "calls a function that changed"
            else:
                bad.append((n, part, fc, a, b))
        sure = {x[1] for x in bad if x[0] == n}
        for part, fc, a, b in loose.differ({p: x for p, x in now.items() if p in there - sure}, {p: x for p, x in then.items() if p in there - sure}, ANY, VAGUE, what.clash):
            if not part.startswith("NULL") and not words(list(a) + list(b) + list(fc)) & gone:
                bad.append((n, part, fc, a, b))
    return bad, done, obl, skipped
