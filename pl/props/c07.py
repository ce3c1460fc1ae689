"""C07: 64-bit coefficients are never narrowed."""
import re
from ..ctx import Result
from ..term import Terms

WIDE_CALLS = {"gcd", "lcm", "llabs", "labs", "imaxabs", "strtol", "strtoll", "strtoimax", "atol", "atoll",
              "isl_val_get_num_si", "isl_val_get_d", "__gmpz_get_si"}
CONFIGS = ("noglpk",)  # the divisor arrays of the public interface are guarded by assertions
NOT_COEFF = {"long unsigned int", "unsigned long", "size_t", "uint64_t", "std::size_t"}
PASS = {"add", "sub", "mul", "sdiv", "srem", "shl", "ashr", "select", "phi", "freeze", "and", "or", "xor", "bitcast"}
INT_MAX, INT_MIN = 2**31 - 1, -2**31


def run(ctx):
    r = Result()
    r.rule = ("Every integer narrowing (IR trunc from 64 bits to fewer, explicit or implicit, including at a call to a "
              "function with a narrower parameter) whose operand is computed from a 64-bit element load, a 64-bit parameter "
              "or a 64-bit arithmetic helper is a violation (so is converting it to floating point and back), unless dominating comparisons bound the value to the narrow "
              "type, or the upper half is extracted next to it.")
    p = ctx.prog
    wide_fns = {f.short for f in p.repo_functions if f.retty == "i64" or (f.sig and strip(f.sig[0]) in ("int64_t", "long", "long int", "long long", "long long int"))}
    ntr = loads = 0
    for f in p.repo_functions:
        if f.linkonce:
            continue
        truncs = [i for i in f.allinsts() if i.op == "trunc" and i.d.get("sty", "i64") == "i64" and i.ty in ("i32", "i16", "i8")]
        for i in f.allinsts():
            if i.op == "load" and i.ty == "i64":
                loads += 1
            if i.op in ("fptosi", "fptoui"):
                s = roundtrip(f, i.ops[0], set())
                if s:
                    r.bad("%s|float" % f.short, "%s: %s passes a 64-bit coefficient (%s) through floating point" % (i.where(), f.short, s))
        for t in truncs:
            ntr += 1
            r.obligations += 1
            src = source(p, f, t.ops[0], wide_fns, set())
            if src is None:
                continue
            if bounded(f, t) or split(f, t, truncs):
                continue
            r.bad("%s|%s" % (f.short, dest(p, f, t)),
                  "%s: %s narrows a 64-bit coefficient (%s) to %s (%s)" % (t.where(), f.short, src, t.ty, dest(p, f, t)))
    nf = 0
    for f in p.repo_functions:
        if not f.linkonce:
            nf += texts(p, f, r)
            floats(f, r)
            copies(f, r)
    r.obligations += nf
    r.floor("formats_inspected", nf, 300)
    r.obligations += loads
    r.floor("functions", len(p.repo_functions), 400)
    r.floor("64_bit_loads_seen", loads, 250)
    r.coverage["narrowings_inspected"] = ntr
    return r


CONV = re.compile(r"%[-+ #0']*(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L|q)?([diouxXcsfFeEgGaApn%]|\[[^\]]*\])")
FORMAT = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1, "fscanf": 1, "scanf": 0, "sscanf": 1}
DOUBLES = ("isl_val_get_d", "__gmpz_get_d", "strtod", "strtof", "atof")


def texts(p, f, r):
    """coefficients are printed and read in full"""
    n = 0
    for i in f.calls():
        b = re.sub(r"^__isoc(99|23)_", "", i.callee or "")
        if b not in FORMAT or len(i.args) <= FORMAT[b]:
            continue
        a = i.args[FORMAT[b]]
        if not (isinstance(a, str) and a.startswith("s:")):
            continue
        scan = "scan" in b
        rest = list(i.args[FORMAT[b] + 1:])
        convs = []
        for m in CONV.finditer(a[2:]):
            if m.group(4) == "%" or scan and m.group(1) == "*":
                continue
            convs += [("*", "")] * (m.group(1) == "*") + [("*", "")] * (m.group(2) == "*")
            convs.append((m.group(3) or "", m.group(4)))
        n += 1
        if len(convs) != len(rest):
            continue
        for (l, c), v in zip(convs, rest):
            if isinstance(v, dict) or c not in ("d", "i", "u", "o", "x", "X") or l in ("l", "ll", "j", "z", "t", "q", "L"):
                continue
            if not scan:
                ty = f.insts[v].ty if isinstance(v, int) else f.params[int(v[1:])]["ty"] if v[:1] == "a" and v[1:].isdigit() else ""
                if ty == "i64":
                    r.bad("%s|format" % f.short, "%s: %s prints a 64-bit value with '%%%s%s'" % (i.where(), f.short, l, c))
                continue
            if isinstance(v, int) and (f.insts[v].d.get("src") == "i64" and f.insts[v].op == "getelementptr" or f.insts[v].d.get("aty") == "i64"):
                r.bad("%s|scan" % f.short, "%s: %s reads a 64-bit value with '%%%s%s'" % (i.where(), f.short, l, c))
            elif isinstance(v, int):
                for x in f.allinsts():
                    if x.op == "store" and isinstance(x.ops[0], int) and f.insts[x.ops[0]].op in ("sext", "zext") and coefficient(f, x.ops[1]):
                        y = f.insts[x.ops[0]].ops[0]
                        if isinstance(y, int) and f.insts[y].op == "load" and (f.insts[y].ops[0] == v):
                            r.bad("%s|scan" % f.short, "%s: %s reads a coefficient into a narrower variable ('%%%s%s')" % (i.where(), f.short, l, c))
    return n


def coefficient(f, a):
    """the address of an element of a row of a system or matrix?"""
    t = Terms(f).t(a)
    return t[0] in ("idx", "ld") and row(t[1] if t[0] == "idx" else t)


def row(t):
    return t[0] == "ld" and ".val'" in repr(t[1])


def floats(f, r):
    """coefficients are not judged by, or made from, floating-point numbers (solvers aside)"""
    for i in f.allinsts():
        if i.op in ("fptosi", "fptoui"):
            seen, work = set(), [i.ops[0]]
            while work:
                v = work.pop()
                if not isinstance(v, int) or v in seen:
                    continue
                seen.add(v)
                x = f.insts[v]
                if x.op == "call" and x.callee in DOUBLES:
                    r.bad("%s|double" % f.short, "%s: %s takes a coefficient from a floating-point number (%s)" % (i.where(), f.short, x.callee))
                if x.op in FPOPS:
                    work += [y[0] for y in x.d["inc"]] if x.op == "phi" else list(x.ops)
                elif x.op == "call":
                    work += [y for y in x.args if not isinstance(y, dict)]
        elif i.op == "fcmp":
            for o in i.ops:
                s = roundtrip(f, o, set())
                if s:
                    r.bad("%s|compare" % f.short, "%s: %s compares a 64-bit coefficient (%s) as a floating-point number" % (i.where(), f.short, s))


def copies(f, r):
    """rows are copied in whole coefficients"""
    T = None
    for i in f.calls():
        c = i.callee or ""
        if c.split(".")[1 if c.startswith("llvm.") else 0] not in ("memcpy", "memmove") or any(isinstance(a, dict) for a in i.args[:3]):
            continue
        T = T or Terms(f)
        if not any(row(T.t(a)) for a in i.args[:2]):
            continue
        n = T.t(i.args[2])
        k = next((x[1] for x in n[1:] if x[0] == "c"), None) if n[0] == "mul" else None
        if k is not None and k % 8:
            r.bad("%s|copy" % f.short, "%s: %s copies coefficients in units of %d bytes" % (i.where(), f.short, k))


def strip(t):
    return t.replace("const", "").strip()


def source(p, f, v, wide, seen):
    if isinstance(v, str):
        if v.startswith("a") and v[1:].isdigit():
            k = int(v[1:])
            if f.params[k]["ty"] == "i64" and not (f.sig and k + 1 < len(f.sig) and strip(f.sig[k + 1]) in NOT_COEFF):
                return "parameter %s" % (f.vname(v) or v)
        return None
    if not isinstance(v, int) or v in seen:
        return None
    seen.add(v)
    i = f.insts[v]
    if i.op == "load" and i.ty == "i64":
        if "plutoOptions" in str(f.insts[i.ops[0]].d.get("path")) if isinstance(i.ops[0], int) else False:
            return None
        t = i.d.get("dty")
        if t and strip(t) in NOT_COEFF:
            return None
        return "loaded at line %d" % i.line()
    if i.op == "call":
        n = p.cname(i)
        if n in ("abs",) or n in WIDE_CALLS or n in wide or (i.callee or "").startswith("llvm.abs") or (i.callee or "").startswith("llvm.s"):
            return "result of %s" % n
        return None
    if i.op in PASS:
        ops = [o for o in (i.d.get("inc") and [x[0] for x in i.d["inc"]] or i.ops)]
        for o in ops:
            s = source(p, f, o, wide, seen)
            if s:
                return s
    if i.op == "sext" or i.op == "zext":
        return None
    return None


FPOPS = {"fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fpext", "fptrunc", "phi", "select", "freeze"}


def roundtrip(f, v, seen):
    """fptosi whose operand is computed (in floating point) from a 64-bit coefficient load"""
    if not isinstance(v, int) or v in seen:
        return None
    seen.add(v)
    i = f.insts[v]
    if i.op == "sitofp" and i.d.get("sty") == "i64":
        return intload(f, i.ops[0], set())
    if i.op in FPOPS:
        for o in ([x[0] for x in i.d["inc"]] if i.op == "phi" else i.ops):
            s = roundtrip(f, o, seen)
            if s:
                return s
    if i.op == "call" and i.ty in ("double", "float"):
        n = i.callee or ""
        if n in ("floor", "ceil", "round", "trunc", "floorf", "ceilf", "roundf", "fabs", "fabsf", "pow", "rint", "sqrt") or n.startswith("llvm."):
            for o in i.args:
                s = roundtrip(f, o, seen)
                if s:
                    return s
    return None


def intload(f, v, seen):
    if not isinstance(v, int) or v in seen:
        return None
    seen.add(v)
    i = f.insts[v]
    if i.op == "load":
        return "loaded at line %d" % i.line()
    if i.op in PASS or (i.op == "call" and (i.callee or "").startswith("llvm.abs")):
        for o in ([x[0] for x in i.d["inc"]] if i.op == "phi" else (i.ops or i.args)):
            s = intload(f, o, seen)
            if s:
                return s
    return None


def split(f, t, truncs):
    """(int)(x >> 32) next to (unsigned)x: both halves are kept"""
    x = t.ops[0]
    if isinstance(x, int) and f.insts[x].op in ("ashr", "lshr") and f.insts[x].ops[1] == "c:32":
        base = f.insts[x].ops[0]
        return any(u.ops[0] == base for u in truncs)
    for u in truncs:
        y = u.ops[0]
        if isinstance(y, int) and f.insts[y].op in ("ashr", "lshr") and f.insts[y].ops[1] == "c:32" and f.insts[y].ops[0] == x:
            return True
    return False


def const(v):
    if isinstance(v, str) and v.startswith("c:"):
        try:
            return int(v[2:])
        except ValueError:
            return None
    return None


def bounded(f, t):
    """upper and lower bound established by comparisons that dominate t"""
    from ..dom import dominating_conditions
    x = t.ops[0]
    lo = hi = False
    from ..expr import ExprCtx
    ec = ExprCtx(f)
    ex = ec.expr(x)[0]
    if isinstance(x, int) and f.insts[x].op == "call" and (f.insts[x].callee or "").split(".")[0] in ("llabs", "labs", "gcd") or \
            isinstance(x, int) and (f.insts[x].callee or "").startswith("llvm.abs"):
        lo = True
    for c, truth in dominating_conditions(f, t.bb):
        if not isinstance(c, int) or f.insts[c].op != "icmp":
            continue
        i = f.insts[c]
        a, b = i.ops
        p = i.d["pred"]
        if const(a) is not None:
            a, b = b, a
            p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
        k = const(b)
        if k is None or ec.expr(a)[0] != ex:
            continue
        if not truth:
            p = {"slt": "sge", "sgt": "sle", "sle": "sgt", "sge": "slt", "eq": "ne", "ne": "eq"}.get(p, p)
        if p == "eq" and INT_MIN <= k <= INT_MAX:
            return True
        if p in ("slt", "sle") and k <= INT_MAX + (p == "slt"):
            hi = True
        if p in ("sgt", "sge") and k >= INT_MIN - (p == "sgt"):
            lo = True
    return lo and hi


def dest(p, f, t):
    """where the narrow value goes (part of the finding's identity)"""
    for i in f.allinsts():
        if i.op == "store" and i.ops[0] == t.id:
            from ..expr import ExprCtx
            return "stored to " + ExprCtx(f).tag(i.ops[1])
        if i.op == "call" and t.id in i.args:
            return "passed to %s" % (p.cname(i) or "?")
    n = f.vname(t.id)
    if n:
        return "variable " + n
    for i in f.allinsts():
        if i.op == "phi" and any(x[0] == t.id for x in i.d.get("inc", [])):
            return "variable " + (f.vname(i.id) or "?")
        if i.op == "ret" and i.ops and i.ops[0] == t.id:
            return "returned"
    return "in an expression"
