"""C08: in silent mode nothing is written to standard output."""
import os, re
from ..ctx import Result
from ..front import REPO, AnalysisBroken
from ..sccp import Sccp

CONFIGS = ("noglpk",)   # prints that only precede a failed assertion are exempt, which needs the assertions
STDOUT_FNS = {"printf", "puts", "putchar", "vprintf", "__printf_chk", "__vprintf_chk", "perror_stdout", "putchar_unlocked"}
HARMLESS = {"fflush", "fileno", "setvbuf", "setbuf", "setlinebuf", "ferror", "clearerr", "feof"}
STREAM = {"fprintf", "vfprintf", "fputs", "fputc", "putc", "fwrite", "__fprintf_chk"}
GLP_TALK = {"glp_scale_prob", "glp_adv_basis", "glp_write_lp", "glp_write_mps", "glp_write_prob", "glp_cpx_basis",
            "glp_print_sol", "glp_read_lp", "glp_read_mps"}
GLP_PARM = {"glp_simplex", "glp_intopt", "glp_exact", "glp_interior"}


def api(p):
    """functions declared in the public header and defined in the library"""
    text = open(os.path.join(REPO, "include/pluto/pluto.h")).read()
    text = re.sub(r"/\*.*?\*/|//[^\n]*", " ", text, flags=re.S)
    names = set(re.findall(r"\b(pluto_\w+)\s*\(", text))
    return [p.fn(n) for n in sorted(names) if p.fn(n) is not None]


def is_stdout(f, v, seen=None):
    seen = seen or set()
    if v == "g:stdout" or v == "g:_ZSt4cout":
        return True
    if isinstance(v, int) and v not in seen:
        seen.add(v)
        i = f.insts[v]
        if i.op == "load":
            return i.ops[0] in ("g:stdout",)
        if i.op == "phi":
            return any(is_stdout(f, x, seen) for x, b in i.d["inc"])
        if i.op == "select":
            return any(is_stdout(f, x, seen) for x in i.ops[1:])
        if i.op in ("getelementptr", "bitcast"):
            return is_stdout(f, i.ops[0], seen)
    return False


def chain(S, f, entries):
    """a call chain from an entry point"""
    names = {e.name for e in entries}
    prev, work = {f.name: None}, [f.name]
    while work:
        n = work.pop(0)
        if n in names:
            out = []
            while n:
                out.append(S.p.functions[n].short)
                n = prev[n]
            return " > ".join(out)
        for c in sorted(S.callers.get(n, ())):
            if c not in prev:
                prev[c] = n
                work.append(c)
    return f.short


def silencer(S, f, memo):
    """does every live path through f turn glpk's terminal off"""
    if f.name in memo:
        return memo[f.name]
    memo[f.name] = False
    off = off_blocks(S, f, memo)
    memo[f.name] = bool(off) and not reach(S, f, off, lambda b: b.insts[-1].op == "ret")
    return memo[f.name]


def off_blocks(S, f, memo):
    r = {}
    for b in f.blocks:
        if b.id not in S.live.get(f.name, ()):
            continue
        for i in b.insts:
            if i.op == "call":
                if i.callee == "glp_term_out" and i.args[0] == "c:0":
                    r.setdefault(b.id, i.idx)
                g = S.p.callee(i)
                if g is not None and not g.decl and g.name in S.live and g is not f and silencer(S, g, memo):
                    r.setdefault(b.id, i.idx)
    return r


def reach(S, f, avoid, goal):
    seen, work = set(), [0]
    E = S.live_edges.get(f.name, set())
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in avoid:
            continue
        if goal(f.blocks[b]):
            return True
        work += [t for s, t in E if s == b]
    return False


def run(ctx):
    r = Result()
    r.rule = ("Conditional constant propagation over the whole program with options->silent = 1, debug = moredebug = 0: no "
              "statement reachable from a public entry point writes to standard output (printf family, stdout passed to a "
              "writer, std::cout, write(1), or glpk with its terminal on), except on the way to a failed assertion.")
    p = ctx.prog
    entries = api(p)
    S = Sccp(p, {"plutoOptions.silent": 1, "plutoOptions.debug": 0, "plutoOptions.moredebug": 0}, entries, skip_doomed=True)
    allw = live = 0
    memo = {}
    for f in p.repo_functions:
        for i in f.calls():
            if i.callee in STDOUT_FNS or any(is_stdout(f, a) for a in i.args):
                allw += 1
    for i in S.live_insts():
        if i.op != "call":
            continue
        live += 1
        f = i.fn
        if not f.in_repo:
            continue
        n = i.callee or ""
        bad = None
        if n in STDOUT_FNS:
            bad = n
        elif n in ("write", "dprintf") and i.args and i.args[0] == "c:1":
            bad = n
        elif n not in HARMLESS and any(is_stdout(f, a) for a in i.args):
            bad = "%s (stdout)" % (p.cname(i) or "an indirect call")
        elif n in GLP_TALK:
            off = off_blocks(S, f, memo)
            if not (i.bb.id in off and off[i.bb.id] < i.idx) and \
                    (i.bb.id not in off and reach(S, f, off, lambda b: b is i.bb) or i.bb.id in off):
                bad = n + " with the glpk terminal on"
        elif n in GLP_PARM:
            if not parm_off(S, f, i):
                bad = n + " with messages on"
        if bad:
            t = text_of(i)
            r.bad("%s|%s|%s" % (f.short, bad, t), "%s: %s in %s can write to stdout in silent mode%s; reached by %s" % (
                i.where(), bad, f.short, " (%s)" % t if t else "", chain(S, f, entries)))
    r.floor("public_entry_points", len(entries), 8)
    r.floor("functions_reachable_from_them", len([n for n in S.live if p.functions[n].in_repo]), 250)
    r.floor("stdout_writes_in_the_library", allw, 150)
    r.coverage["live_calls_inspected"] = live
    r.obligations = allw + live
    if not any(i.callee == "printf" for f in p.repo_functions for i in f.calls()):
        raise AnalysisBroken("no printf call resolved")
    return r


def text_of(i):
    for a in i.args:
        if isinstance(a, str) and a.startswith("s:"):
            return a[2:].strip()[:40]
    return ""


def parm_off(S, f, call):
    """the control parameters' msg_lev is stored as OFF and never anything else"""
    a = call.args[1] if len(call.args) > 1 else None
    if a == "null":
        return False
    vals = set()
    for i in S.live_insts():
        if i.fn is f and i.op == "store" and isinstance(i.ops[1], int):
            g = f.insts[i.ops[1]]
            if g.op == "getelementptr" and g.ops[0] == a and any(str(st.get("f", "")).endswith(".msg_lev") for st in g.d["path"]):
                vals.add(i.ops[0])
            elif g.op == "alloca" and i.ops[1] == a:
                # msg_lev is the first member
                vals.add(i.ops[0])
    return vals == {"c:0"}
