"""C01: no state shared between calls."""
from ..ctx import Result

# libc functions that keep state of their own between calls / share static results
NONREENTRANT = {"strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "asctime", "ctime", "gmtime", "localtime",
                "strerror", "tmpnam", "setlocale", "getenv", "setenv", "putenv", "signal", "atexit", "readdir", "getopt",
                "basename", "dirname", "gethostbyname", "setbuf", "setvbuf", "freopen", "dup2", "chdir", "umask",
                "ttyname", "getpwuid", "getlogin", "localeconv", "strsignal", "ecvt", "fcvt", "hcreate", "hsearch", "hdestroy",
                "getopt_long", "glp_free_env", "glp_mem_limit", "glp_error_hook"}


def run(ctx):
    r = Result()
    r.rule = ("No function of the library owns storage that outlives a call: every global and function-local static of the "
              "linked program is constant, or is provably never written (no store, memory intrinsic or callee summary writes "
              "it); thread-local storage and stateful libc functions are not used.")
    p, E = ctx.prog, ctx.eff
    written = {}
    for f in p.functions.values():
        if f.decl:
            continue
        for path, w in E.eff[f.name].writes.items():
            if path[0][0] == "g":
                # the innermost function that writes it
                if path[0][1] not in written or w.op == "store":
                    written[path[0][1]] = w
    mutable = 0
    for g in p.globals.values():
        if g["decl"]:
            if g["name"] in ("stdout", "stderr", "stdin") or g["name"].startswith("_ZT") or g["name"].startswith("__"):
                continue
            r.obligations += 1
            if g["name"] in written:
                w = written[g["name"]]
                r.bad("extern|" + g["name"], "%s: %s writes the external variable %s" % (w.where(), w.fn.short, g["name"]))
            continue
        r.obligations += 1
        if g["const"]:
            continue
        mutable += 1
        n = g["name"]
        if g.get("tls"):
            r.bad("tls|" + n, "thread-local variable %s keeps state between calls" % n)
            continue
        # used through its address in a way the analysis cannot see?
        if n in written:
            w = written[n]
            r.bad("global|" + n.split("@@")[0] + "|" + w.fn.short,
                  "%s: function %s writes %s, which outlives the call" % (w.where(), w.fn.short, n))
            continue
        esc = address_escapes(p, n)
        if esc is not None:
            r.bad("global|" + n.split("@@")[0] + "|" + esc.fn.short,
                  "%s: function %s hands out the address of the mutable static variable %s" % (esc.where(), esc.fn.short, n))
    for f in p.repo_functions:
        for i in f.calls():
            r.obligations += 1
            if i.callee in NONREENTRANT:
                r.bad("call|%s|%s" % (f.short, i.callee), "%s: %s calls %s, which keeps state between calls" % (i.where(), f.short, i.callee))
    r.floor("functions", len(p.repo_functions), 400)
    r.floor("globals_inspected", len(p.globals), 100)
    r.coverage["mutable_globals"] = mutable
    return r


def uses(v, n):
    if isinstance(v, str):
        return v == "g:" + n
    if isinstance(v, dict):
        return any(uses(o, n) for o in v.get("ops", []))
    return False


KEEPERS = ("isl_", "glp_", "__gmpz_", "llvm.")


def address_escapes(p, n):
    """a call/store/return through which a mutable static's address leaves"""
    for f in p.functions.values():
        for i in f.allinsts():
            if i.op == "store" and uses(i.ops[0], n):
                return i
            if i.op == "ret" and i.ops and uses(i.ops[0], n):
                return i
            if i.op == "call":
                for a in i.args:
                    if uses(a, n):
                        c = p.callee(i)
                        if c is None or (c.decl and i.callee not in ("printf", "fprintf", "strlen", "strcmp")):
                            return i
    return None
