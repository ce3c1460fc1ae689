"""C16: the same input gives the same result: nothing depends on the clock, addresses or uninitialised memory."""
import re
from ..ctx import Result
from ..fill import Fill
from ..assigned import Assigned, SCALAR
from ..term import show
from ..must import base_callee

SOURCES = re.compile(
    r"^(time|clock|clock_gettime|times|getrusage|ftime|gettimeofday|rand|random|rand_r|srand|srandom|[deln]rand48|[mj]rand48|getrandom|getentropy"
    r"|arc4random.*|getpid|getppid|gettid|getuid|geteuid|getenv|secure_getenv|gethostname|uname|getcwd|sysconf|get_nprocs|tmpnam|mkstemp|mktemp"
    r"|pthread_self|pthread_create|sched_getcpu|omp_get_.*|localtime.*|gmtime.*|ctime.*|strftime|stat|fstat|lstat|opendir|readdir"
    r"|_ZNSt6chrono.*3nowEv|_ZNSt13random_device.*|_ZNSt6thread.*)$")
CLOCK = {"gettimeofday"}
PRINTS = {"printf", "fprintf", "sprintf", "snprintf", "puts", "fputs", "fputc", "putchar"}
TIMED = re.compile(r"time", re.I)
# values that are set on every path that uses them, which the graph cannot show (reviewed)
LATER = {("pluto_constraints_gaussian_eliminate", "factor1"), ("pluto_constraints_gaussian_eliminate", "factor2"),
         ("get_stmt_lin_ind_constraints", "orthcst_i")}
# arrays that grow by realloc: the new element is set before the function returns
GROW = set("""pluto_prog_add_hyperplane pluto_stmt_add_hyperplane pluto_update_deps_after_iss pluto_add_given_stmt pluto_get_loops_under
pluto_get_outermost_permutable_bands pluto_loops_cat pluto_get_unroll_jam_loops pluto_get_innermost_permutable_bands
pluto_get_parallel_loops pluto_bands_cat pluto_add_dep pluto_prog_add_param pluto_stmt_add_dim pluto_add_stmt add_if_new_var
pluto_sink_transformation""".split())
CASTS = {"fptosi", "fptoui", "fptrunc", "fpext", "sitofp", "uitofp", "sext", "zext", "trunc", "bitcast"}
ARITH = {"fadd", "fsub", "fmul", "fdiv", "fneg", "add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "frem", "phi", "select"} | CASTS


def run(ctx):
    r = Result()
    r.rule = ("No source of non-determinism is called (clock, random numbers, process, host, environment) except the clock for the timing "
              "statistics, whose values flow only into timing fields and messages; addresses are never ordered, hashed or printed; every "
              "local variable, array and matrix is assigned before it is looked at on every path, and what realloc adds is set.")
    p, E = ctx.prog, ctx.eff
    clocks = sources(r, p)
    timing(r, p, clocks)
    addresses(r, p)
    F = Fill(p, E)
    A = Assigned(p, F)
    unset(r, p)
    locals_(r, p, F, A)
    heap(r, p, F, A)
    fresh(r, p, F)
    return r


# ---------------------------------------------------------------- sources
def sources(r, p):
    clocks, n = {}, 0
    for f in p.functions.values():
        if f.decl:
            continue
        for i in f.calls():
            if i.callee is None:
                continue
            n += 1
            g = p.functions.get(i.callee)
            if (g is None or g.decl) and SOURCES.match(i.callee):
                if i.callee in CLOCK:
                    clocks.setdefault(f.name, []).append(i)
                else:
                    r.bad("%s|%s" % (f.short, i.callee), "%s: %s calls %s: results would depend on it" % (i.where(), f.short, i.callee))
    r.floor("calls_inspected", n, 2500)
    r.obligations += n
    return clocks


def timing(r, p, clocks):
    """values read from the clock reach timing fields and messages only"""
    tainted = {}                       # function -> values
    returns = set()
    fields = {"plutoProg.%s" % m[0] for m in p.structs.get("plutoProg", []) if TIMED.search(m[0])}
    r.floor("timing_fields", len(fields), 8)
    work = set()
    for fn, cs in clocks.items():
        f = p.functions[fn]
        bufs = {x.args[0] for x in cs}
        t = tainted.setdefault(fn, set())
        for i in f.allinsts():
            if i.op == "load" and root(f, i.ops[0]) in bufs:
                t.add(i.id)
        work.add(fn)
    for f in p.repo_functions:
        for i in f.allinsts():
            if i.op == "load" and field(f, i.ops[0]) in fields:
                tainted.setdefault(f.name, set()).add(i.id)
                work.add(f.name)
    n = 0
    while work:
        fn = work.pop()
        f = p.functions[fn]
        t = tainted[fn]
        grow = True
        while grow:
            grow = False
            for i in f.allinsts():
                if i.id in t:
                    continue
                ops = [x for x, b in i.d["inc"]] if i.op == "phi" else i.ops
                if i.op == "call" and (i.callee or "").startswith("llvm."):
                    ops = i.args
                elif i.op not in ARITH:
                    continue
                if any(x in t for x in ops if not isinstance(x, dict)):
                    t.add(i.id)
                    grow = True
        for i in f.allinsts():
            if i.op == "ret" and i.ops and not isinstance(i.ops[0], dict) and i.ops[0] in t and fn not in returns:
                returns.add(fn)
                for g in p.repo_functions:
                    for c in g.calls():
                        h = p.callee(c)
                        if h is not None and h.name == fn and c.id not in tainted.setdefault(g.name, set()):
                            tainted[g.name].add(c.id)
                            work.add(g.name)
    for fn, t in tainted.items():
        f = p.functions[fn]
        for i in f.allinsts():
            ops = [x for x in list(i.ops) + list(i.args) if not isinstance(x, dict)]
            use = [x for x in ops if x in t]
            if not use or i.op in ARITH or i.op == "ret":
                continue
            n += 1
            if i.op == "store" and i.ops[0] in t:
                if field(f, i.ops[1]) in fields or local(f, i.ops[1]):
                    continue
                r.bad("%s|clock" % f.short, "%s: %s stores a value read from the clock in something other than the timing statistics" % (i.where(), f.short))
            elif i.op == "call" and (base_callee(i) in PRINTS or (i.callee or "").startswith("llvm.")):
                continue
            elif i.op in ("icmp", "fcmp", "switch", "br", "call", "invoke", "getelementptr"):
                r.bad("%s|clock" % f.short, "%s: %s lets a value read from the clock decide what it does" % (i.where(), f.short))
    r.obligations += n
    r.floor("uses_of_clock_values", n, 20)


def root(f, v):
    while isinstance(v, int) and f.insts[v].op in ("getelementptr", "bitcast"):
        v = f.insts[v].ops[0]
    return v


def field(f, v):
    if isinstance(v, int) and f.insts[v].op == "getelementptr":
        for st in reversed(f.insts[v].d["path"]):
            if "f" in st:
                return st["f"]
    return None


def local(f, v):
    return isinstance(root(f, v), int) and f.insts[root(f, v)].op == "alloca"


# ---------------------------------------------------------------- addresses
ORDER = ("ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge")


def addresses(r, p):
    n = 0
    for f in p.functions.values():
        if f.decl:
            continue
        if re.search(r"St4lessIP|St7greaterIP|St4hashIP", f.name):
            r.bad("%s|ordered" % f.name[:60], "%s:%d: a container or algorithm orders or hashes pointers (%s)" % (f.file, f.line, f.short[:80]))
        own = not f.linkonce
        cmpfn = re.search(r"_Iter_less_iter|_Iter_less_val|_Val_less_iter", f.name)
        for i in f.allinsts():
            if i.op == "icmp":
                n += 1
                if i.d["pred"] in ORDER and (own or cmpfn) and any(isptr(f, o) for o in i.ops):
                    a, b = bases(f, i.ops[0]), bases(f, i.ops[1])
                    if not a or not b or not a & b:
                        r.bad("%s|compare" % f.short, "%s: %s orders objects by their addresses" % (i.where(), f.short))
            elif i.op == "ptrtoint" and own:
                n += 1
                us = [x for x in f.allinsts() if i.id in [y for y in list(x.ops) + list(x.args) if not isinstance(y, dict)]]
                for x in us:
                    if x.op == "icmp" and x.d["pred"] in ("eq", "ne"):
                        continue
                    if x.op == "sub" and all(isinstance(o, int) and f.insts[o].op == "ptrtoint" for o in x.ops) \
                            and bases(f, f.insts[x.ops[0]].ops[0]) & bases(f, f.insts[x.ops[1]].ops[0]):
                        continue
                    r.bad("%s|number" % f.short, "%s: %s uses an address as a number" % (x.where(), f.short))
            elif i.op == "call" and base_callee(i) in PRINTS and own:
                for a in i.args[:3]:
                    if isinstance(a, str) and a.startswith("s:") and re.search(r"%[-0-9]*p", a):
                        r.bad("%s|print" % f.short, "%s: %s prints an address" % (i.where(), f.short))
    r.obligations += n
    r.floor("comparisons", n, 1500)


def isptr(f, o):
    if isinstance(o, int):
        i = f.insts[o]
        return i.ty == "ptr" or i.op == "ptrtoint"
    if isinstance(o, str) and o.startswith("a") and o[1:].isdigit():
        return f.params[int(o[1:])]["ty"] == "ptr"
    return isinstance(o, dict)


def bases(f, v, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, dict):
        return bases(f, v["ops"][0], seen) if v.get("ops") else set()
    if not isinstance(v, int):
        return {v}
    if v in seen:
        return set()
    seen.add(v)
    i = f.insts[v]
    if i.op in ("getelementptr", "bitcast", "ptrtoint", "inttoptr"):
        return bases(f, i.ops[0], seen)
    if i.op == "phi":
        return set().union(*[bases(f, x, seen) for x, b in i.d["inc"]])
    if i.op == "select":
        return bases(f, i.ops[1], seen) | bases(f, i.ops[2], seen)
    if i.op == "load":
        g = i.ops[0]
        if isinstance(g, int) and f.insts[g].op == "getelementptr" and any("i" in st and st["i"] != "c:0" for st in f.insts[g].d["path"]):
            return {v}                 # an element: another object each time
        return {("ld", tuple(sorted(map(str, bases(f, g)))), field(f, g))}
    return {v}


# ---------------------------------------------------------------- variables
def unset(r, p):
    n = 0
    for f in p.repo_functions:
        for i in f.allinsts():
            if i.op == "insertvalue":
                continue
            n += 1
            ops = [x for x, b in i.d["inc"]] if i.op == "phi" else list(i.ops) + list(i.args)
            if any(o in ("undef", "poison") for o in ops if isinstance(o, str)):
                name = f.vname(i.id) if i.op == "phi" else None
                if (f.short, name) in LATER or not used(f, i):
                    continue
                r.bad("%s|unset %s" % (f.short, name), "%s: %s: %s may be used without having been assigned" %
                      (i.where(), f.short, name or "a variable"))
    r.obligations += n
    r.floor("instructions_checked_for_unset_operands", n, 20000)


def used(f, i):
    """is the value looked at (other than by further joins)?"""
    if i.op != "phi":
        return True
    seen, work = set(), [i.id]
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for x in f.allinsts():
            ops = [y for y, b in x.d["inc"]] if x.op == "phi" else [y for y in list(x.ops) + list(x.args) if not isinstance(y, dict)]
            if v in ops:
                if x.op != "phi":
                    return True
                work.append(x.id)
    return False


def locals_(r, p, F, A):
    n = 0
    for f in p.repo_functions:
        if f.linkonce:
            continue
        for i in f.allinsts():
            if i.op != "alloca":
                continue
            t = i.d["aty"]
            if t in SCALAR:
                n += 1
                x = A.scalar(f, i) if i.ops == ["c:1"] else F.site(f, i, False)
                if x is not None:
                    r.bad("%s|local %s" % (f.short, f.vname(i.id)), "%s: %s looks at '%s', which is not set on every path to here" %
                          (x.where(), f.short, f.vname(i.id)))
            elif t.startswith("struct ") and t.endswith("_info") and t[7:] in p.structs:
                for m, x in A.record(f, i, [t[7:] + "." + m[0] for m in p.structs[t[7:]]]):
                    r.bad("%s|record %s" % (f.short, m), "%s: %s hands on '%s' before its member %s is set" % (x.where(), f.short, f.vname(i.id), m))
                n += len(p.structs[t[7:]])
    r.obligations += n
    r.floor("local_variables", n, 110)


def heap(r, p, F, A):
    n = m = 0
    for f in p.repo_functions:
        if f.linkonce:
            continue
        T = F.terms(f)
        for i in f.calls():
            c = p.cname(i)
            if c == "pluto_matrix_alloc":
                n += 1
                if T.t(i.args[0]) == ("c", 0):
                    continue
                x = F.site(f, i, True, T.t(i.args[0]) == ("c", 1))
            elif i.callee == "malloc":
                n += 1
                x = F.site(f, i, False)
            elif i.callee == "realloc" and f.short in GROW:
                m += 1
                grown(r, p, F, A, f, i)
                continue
            else:
                continue
            if x is not None:
                what = f.vname(i.id) or "the %s allocated here" % ("matrix" if c == "pluto_matrix_alloc" else "array")
                r.bad("%s|%s" % (f.short, what), "%s: %s: %s is looked at (%s) before it has been filled on every path" %
                      (i.where(), f.short, what, x.where()))
    r.obligations += n + m
    r.floor("allocated_arrays_and_matrices", n, 130)
    r.floor("arrays_that_grow", m, 18)


# what these hand to their callers is a row (column) of zeros
FRESH = {"pluto_matrix_add_row": "row", "pluto_matrix_add_col": "column", "pluto_constraints_add_inequality": "row",
         "pluto_constraints_add_equality": "row", "pluto_constraints_add_dim": "column"}


def fresh(r, p, F):
    for f in p.repo_functions:
        what = FRESH.get(f.short)
        if what:
            r.obligations += 1
            if not F.zeroed(f, 0, what):
                r.bad("%s|fresh" % f.short, "%s:%d: %s can return without having cleared the whole %s it adds" % (f.file, f.line, f.short, what))


def grown(r, p, F, A, f, i):
    T = F.terms(f)
    N = F.names(f, i.id)
    hit, byfield = set(), {}
    for x in f.allinsts():
        if x.op == "store" and not isinstance(x.ops[1], dict):
            a, fl = T.t(x.ops[1]), None
            while a[0] == "fld":
                a, fl = a[1], fl or a[2]
            if F.elem(a, N, False) is not None:
                hit.add(x.id)
                if fl:
                    byfield.setdefault(fl, set()).add(x.id)
        elif x.op == "call" and x.callee not in ("free", "realloc"):
            if any(not isinstance(a, dict) and F.elem(T.t(a), N, False) is not None for a in x.args):
                hit.add(x.id)
    if A.early(f, i.bb, i.idx + 1, hit, lambda x: x.op == "ret") is not None:
        r.bad("%s|grown" % f.short, "%s: %s enlarges an array and can return without setting the new element" % (i.where(), f.short))
        return
    if byfield:
        st = next(iter(byfield)).split(".")[0]
        for m in p.structs.get(st, []):
            fl = "%s.%s" % (st, m[0])
            r.obligations += 1
            if A.early(f, i.bb, i.idx + 1, byfield.get(fl, set()), lambda x: x.op == "ret") is not None:
                r.bad("%s|grown %s" % (f.short, fl), "%s: %s enlarges an array and can return without setting %s of the new element" %
                      (i.where(), f.short, m[0]))
