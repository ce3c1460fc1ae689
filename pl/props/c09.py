"""C09: functions given a stream print to (or read from) that stream only."""
from ..ctx import Result
from ..sccp import Sccp
from .c08 import STDOUT_FNS, HARMLESS

CONFIGS = ("noglpk",)
# stream argument of the stdio calls
STREAM_ARG = {"fprintf": 0, "vfprintf": 0, "__fprintf_chk": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "fread": 3,
              "fscanf": 0, "__isoc99_fscanf": 0, "__isoc23_fscanf": 0, "fgets": 2, "fgetc": 0, "getc": 0, "getline": 2}
STDIN_FNS = {"scanf", "__isoc99_scanf", "__isoc23_scanf", "getchar", "gets"}
STD = ("g:stdout", "g:stderr", "g:stdin", "g:_ZSt4cout", "g:_ZSt4cerr", "g:_ZSt3cin")


def files(f):
    return ["a%d" % k for k in range(len(f.params)) if f.params[k]["ty"] == "ptr" and "FILE" in str(f.vtype("a%d" % k) or "")]


def roots(f, v, seen=None):
    """parameters, standard streams and call results a stream value can be"""
    seen = set() if seen is None else seen
    if isinstance(v, str):
        return {v}
    if not isinstance(v, int) or v in seen:
        return set()
    seen.add(v)
    i = f.insts[v]
    if i.op == "load":
        if i.ops[0] in STD:
            return {i.ops[0]}
        if isinstance(i.ops[0], int) and f.insts[i.ops[0]].op == "alloca":
            r = set()
            for j in f.allinsts():
                if j.op == "store" and j.ops[1] == i.ops[0]:
                    r |= roots(f, j.ops[0], seen)
            return r
        return {"?"}
    if i.op == "phi":
        r = set()
        for x, b in i.d["inc"]:
            r |= roots(f, x, seen)
        return r
    if i.op == "select":
        return roots(f, i.ops[1], seen) | roots(f, i.ops[2], seen)
    if i.op in ("bitcast", "freeze", "getelementptr"):
        return roots(f, i.ops[0], seen)
    if i.op == "call":
        return {"call " + (i.callee or "?")}
    return {"?"}


def own_stream(rs):
    """streams the function opened itself"""
    return rs and all(r.startswith("call fopen") or r.startswith("call fdopen") or r.startswith("call fmemopen") or
                      r.startswith("call open_memstream") or r == "null" for r in rs)


def run(ctx):
    r = Result()
    r.rule = ("In every function with a stream parameter, every stdio call and every call to a function that itself takes a "
              "stream uses that parameter, and no function called without a stream touches a standard stream (debugging "
              "output and prints on the way to a failed assertion excepted).")
    p = ctx.prog
    fns = [f for f in p.repo_functions if files(f)]
    S = Sccp(p, {"plutoOptions.debug": 0, "plutoOptions.moredebug": 0}, fns, skip_doomed=True)
    memo = {}

    def live_calls(f):
        for b in f.blocks:
            if b.id in S.live.get(f.name, ()):
                for i in b.insts:
                    if i.op == "call":
                        yield i
                        if i.d.get("noreturn"):
                            break

    def std_use(f):
        """(site, text) if f, given no stream, touches a standard stream"""
        if f.name in memo:
            return memo[f.name]
        memo[f.name] = None
        for i in live_calls(f):
            n = i.callee or ""
            if n in STDOUT_FNS or n in STDIN_FNS:
                memo[f.name] = "%s: %s" % (i.where(), n)
                break
            if n in HARMLESS:
                continue
            std = [x for a in i.args for x in roots(f, a) if x in STD]
            if std:
                memo[f.name] = "%s: %s with %s" % (i.where(), p.cname(i), std[0][2:])
                break
            g = p.callee(i)
            if g is not None and not g.decl and not files(g):
                u = std_use(g)
                if u:
                    memo[f.name] = u
                    break
        return memo[f.name]

    ops = 0
    for f in fns:
        mine = set(files(f))
        for i in live_calls(f):
            n = i.callee or ""
            if n in HARMLESS:
                continue
            bad = None
            if n in STDOUT_FNS or n in STDIN_FNS:
                bad = n
                ops += 1
            elif n in STREAM_ARG and STREAM_ARG[n] < len(i.args):
                ops += 1
                rs = roots(f, i.args[STREAM_ARG[n]])
                if not rs <= mine | {"null"} and not own_stream(rs):
                    bad = "%s on %s" % (n, ", ".join(sorted(x.replace("g:", "") for x in rs - mine)))
            else:
                g = p.callee(i)
                if g is not None and not g.decl and g.in_repo:
                    fp = files(g)
                    if fp:
                        for a in fp:
                            ops += 1
                            rs = roots(f, i.args[int(a[1:])])
                            if not rs <= mine | {"null"} and not own_stream(rs):
                                bad = "%s given %s" % (g.short, ", ".join(sorted(x.replace("g:", "") for x in rs - mine)))
                    else:
                        u = std_use(g)
                        if u:
                            bad = "%s (%s)" % (g.short, u)
            if bad:
                r.bad("%s|%s" % (f.short, bad.split(" (")[0]), "%s: %s is given a stream but uses another one: %s" % (i.where(), f.short, bad))
    r.floor("functions_with_a_stream_parameter", len(fns), 15)
    r.floor("stream_operations_checked", ops, 80)
    r.obligations = ops
    return r
