"""C17: no effects on the process or the file system beyond the documented ones."""
import re
from ..ctx import Result
from ..dom import dominating_conditions
from ..must import base_callee

FORBIDDEN = re.compile(
    r"^(system|popen|pclose|v?fork|exec(l|lp|le|v|vp|ve|vpe|veat)|posix_spawn.*|wait|waitpid|kill|raise|killpg|tgkill|signal|sigaction|sigprocmask"
    r"|bsd_signal|sigset|alarm|setitimer|ualarm|sleep|usleep|nanosleep|pause|remove|unlink|unlinkat|rename|renameat.*|rmdir|mkdir|mkdirat|mkfifo|mknod"
    r"|link|symlink|truncate|ftruncate|chmod|fchmod|chown|fchown|lchown|utime|utimes|creat|open|open64|openat|opendir|freopen|freopen64|tmpfile|tmpfile64"
    r"|mkstemp|mkostemp|mkdtemp|mktemp|tmpnam|tempnam|dup|dup2|dup3|pipe|socket|connect|bind|listen|accept|send|sendto|recv|recvfrom|ioctl|fcntl"
    r"|chdir|fchdir|chroot|umask|setuid|setgid|seteuid|setegid|nice|setpriority|setrlimit|setrlimit64|prctl|ptrace|mount|umount|reboot"
    r"|setenv|putenv|unsetenv|clearenv|setlocale|uselocale|tzset|srand|srandom|srand48|setvbuf|setbuf|setbuffer|setlinebuf|setlogmask|openlog|syslog"
    r"|atexit|on_exit|at_quick_exit|pthread_.*|omp_set_.*|sched_.*|dlopen|dlsym|dlclose|mmap|munmap|mprotect|mlock.*|sbrk|brk|mallopt"
    r"|feenableexcept|fesetround|longjmp|_longjmp|siglongjmp|_setjmp|setjmp|sigsetjmp|__sigsetjmp|__cxa_throw|__cxa_atexit|_ZSt13set_terminate.*"
    r"|_ZNSt14basic_ofstream.*|_ZNSt13basic_fstream.*|_ZNSt10filesystem.*|_ZNSt6thread.*|isl_options_set_on_error|isl_ctx_set_.*)$")
ENDS = re.compile(r"^(exit|_exit|_Exit|quick_exit|abort|_ZSt9terminatev|_ZSt10unexpectedv|err|errx|verr|verrx|error|__builtin_trap|llvm\.trap)$")
CLOSES = {"fclose": "stream", "close": "descriptor"}
# the control files of README.md / doc: name, and the modes they are opened in
FILES = {".fst": "r", ".precut": "r", "skipdeps.txt": "r", "tile.sizes": "r", "codegen.context": "r", ".regtile": "w"}
# what writes a file: only on explicit request of the command-line tool
ENTRY = ("pluto_transform", "pluto_schedule", "pluto_schedule_str", "pluto_schedule_prog", "pluto_get_remapping", "pluto_get_remapping_str",
         "pluto_auto_transform", "pluto_tile", "pluto_create_tile_schedule", "pluto_compute_dep_satisfaction", "pluto_parallel_schedule",
         "pluto_context_alloc", "pluto_context_free", "pluto_get_parallel_loops", "pluto_intra_tile_optimize", "pluto_iss_dep")
ALLOC = {"malloc", "calloc", "realloc", "strdup", "aligned_alloc", "posix_memalign"}
STD = ("g:stdout", "g:stderr", "g:stdin")


def run(ctx):
    r = Result()
    r.rule = ("No call to a function that runs, signals or ends a process, changes a process-wide setting, or creates, changes or removes a "
              "file; every file that is opened has a constant name and mode from the list of documented control files; files are written only "
              "outside the transformation's call graph; the process is ended only where an allocation has failed.")
    p = ctx.prog
    n = nf = 0
    writers = {}
    for f in p.repo_functions:
        for i in f.calls():
            g = p.callee(i)
            c = i.callee
            if c is None or g is not None and not g.decl and g.blocks:
                continue
            n += 1
            if FORBIDDEN.match(c):
                if f.linkonce and c in ("__cxa_throw", "__cxa_atexit"):
                    continue
                r.bad("%s|%s" % (f.short, c), "%s: %s calls %s: an effect on the process or the file system" % (i.where(), f.short, c))
            elif ENDS.match(c):
                if not excused(p, f, i.bb, 0):
                    r.bad("%s|%s" % (f.short, c), "%s: %s ends the process (%s) although no allocation failed" % (i.where(), f.short, c))
            elif c in ("fopen", "fopen64", "fdopen", "_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode"):
                nf += 1
                for name, mode in opened(p, f, i.args[0], i.args[1] if len(i.args) > 1 else "s:r", 0):
                    if name not in FILES or not mode:
                        r.bad("%s|open %s" % (f.short, name), "%s: %s opens %s, which is none of the documented control files" %
                              (i.where(), f.short, "'%s'" % name if name else "a file whose name is not a constant"))
                        continue
                    if mode.rstrip("b").rstrip("e") != FILES[name]:
                        r.bad("%s|mode %s" % (f.short, name), "%s: %s opens '%s' in mode '%s'" % (i.where(), f.short, name, mode))
                    if mode[0] != "r" or "+" in mode:
                        writers[f.name] = (f, i, name)
            elif c == "fclose" and std(f, i.args[0]):
                r.bad("%s|close" % f.short, "%s: %s closes a standard stream of the process" % (i.where(), f.short))
    # files are not written on the way of a transformation
    reach, work = {}, []
    for f in p.repo_functions:
        if f.short in ENTRY:
            reach[f.name] = f.short
            work.append(f)
    ne = len(work)
    while work:
        f = work.pop()
        for i in f.calls():
            g = p.callee(i)
            for h in [g] if g is not None else []:
                if h.name not in reach:
                    reach[h.name] = f.short
                    if not h.decl and h.blocks:
                        work.append(h)
    for name, (f, i, fn) in writers.items():
        if name in reach:
            r.bad("%s|written %s" % (f.short, fn), "%s: %s writes '%s' in the course of a transformation (called from %s)" % (i.where(), f.short, fn, reach[name]))
    r.obligations += n + nf + len(reach)
    r.floor("calls_of_functions_outside", n, 1500)
    r.floor("files_opened", nf, 5)
    r.floor("entry_points", ne, 8)
    r.floor("functions_in_a_transformation", len(reach), 200)
    return r


def text(f, v):
    if isinstance(v, str) and v.startswith("s:"):
        return v[2:]
    return None


def opened(p, f, name, mode, depth):
    """(name, mode) pairs the call can open"""
    out = []
    for nm in alternatives(p, f, name, depth):
        for md in alternatives(p, f, mode, depth):
            out.append((nm, md))
    return out


def alternatives(p, f, v, depth):
    t = text(f, v)
    if t is not None:
        return [t]
    if isinstance(v, int):
        i = f.insts[v]
        if i.op == "phi":
            return [y for x, b in i.d["inc"] for y in alternatives(p, f, x, depth + 1)] if depth < 4 else [None]
        if i.op == "select":
            return alternatives(p, f, i.ops[1], depth + 1) + alternatives(p, f, i.ops[2], depth + 1) if depth < 4 else [None]
    if isinstance(v, str) and v[0] == "a" and v[1:].isdigit() and depth < 4:
        # a helper that opens what its callers name
        k = int(v[1:])
        sites = [(g, c) for g in p.repo_functions for c in g.calls() if p.callee(c) is f]
        if sites and all(k < len(c.args) for g, c in sites):
            return [y for g, c in sites for y in alternatives(p, g, c.args[k], depth + 1)]
    return [None]


def std(f, v):
    return isinstance(v, int) and f.insts[v].op == "load" and f.insts[v].ops[0] in STD


def excused(p, f, b, depth):
    """is the block reached only after an allocation has failed?"""
    for c, truth in dominating_conditions(f, b):
        if not isinstance(c, int) or f.insts[c].op != "icmp":
            continue
        i = f.insts[c]
        if "null" not in i.ops or (i.d["pred"] == "eq") != truth:
            continue
        v = next((o for o in i.ops if o != "null"), None)
        if fresh(p, f, v, 0):
            return True
    sites = [(g, c) for g in p.repo_functions for c in g.calls() if p.callee(c) is f]
    return bool(sites) and depth < 3 and f.internal and all(excused(p, g, c.bb, depth + 1) for g, c in sites)


def fresh(p, f, v, depth):
    if isinstance(v, str) and v[:1] == "a" and v[1:].isdigit() and depth < 3:
        k = int(v[1:])
        sites = [(g, c) for g in p.repo_functions for c in g.calls() if p.callee(c) is f]
        return bool(sites) and all(k < len(c.args) and fresh(p, g, c.args[k], depth + 1) for g, c in sites)
    if not isinstance(v, int):
        return False
    i = f.insts[v]
    if i.op == "call":
        return base_callee(i) in ALLOC
    if i.op == "load":
        # a member just allocated
        return any(s.op == "store" and isinstance(s.ops[0], int) and f.insts[s.ops[0]].op == "call" and base_callee(f.insts[s.ops[0]]) in ALLOC
                   and same(f, s.ops[1], i.ops[0]) for s in f.allinsts())
    if i.op in ("phi", "bitcast"):
        return depth < 3 and all(fresh(p, f, x, depth + 1) for x in ([x for x, b in i.d["inc"]] if i.op == "phi" else i.ops[:1]))
    return False


def same(f, a, b):
    if a == b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        x, y = f.insts[a], f.insts[b]
        return x.op == y.op == "getelementptr" and x.ops == y.ops and x.d.get("path") == y.d.get("path")
    return False
