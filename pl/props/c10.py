"""C10: diagnostics (silent, debug, moredebug, assertions) never influence what is computed."""
import re
from ..ctx import Result
from ..dom import pidoms
from .. import effects

DIAG = {"plutoOptions.silent", "plutoOptions.debug", "plutoOptions.moredebug"}
OUT = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "fflush", "vfprintf", "vprintf",
       "glp_term_out", "perror", "__assert_fail", "gettimeofday"}
CONFIGS = ("noglpk",)


def diag_load(f, i):
    if i.op != "load" or not isinstance(i.ops[0], int):
        return False
    g = f.insts[i.ops[0]]
    if g.op != "getelementptr":
        return False
    fs = [st["f"] for st in g.d["path"] if "f" in st]
    return bool(fs) and fs[-1] in DIAG


def region(f, b):
    """blocks whose execution the branch at the end of b decides"""
    pd = pidoms(f)
    stop = pd.get(b.id)
    if stop is None:
        return set()
    seen, work = set(), [s.id for s in b.succ]
    while work:
        x = work.pop()
        if x == stop or x in seen:
            continue
        seen.add(x)
        work += [s.id for s in f.blocks[x].succ]
    return seen


class Fn:
    """taint of diagnostic options inside one function"""

    def __init__(self, p, E, f, tparams, tainted_rets, rep):
        self.p, self.E, self.f, self.rep = p, E, f, rep
        self.t = set()          # tainted values
        self.mem = set()        # tainted local variables (allocas)
        self.tp = tparams       # tainted parameter indices
        self.tr = tainted_rets
        self.branches = set()
        self.R = {}             # block id -> branch line
        self.ret = False
        self.passed = {}        # callee -> set of arg indices
        self.solve()

    def tv(self, v):
        if isinstance(v, int):
            return v in self.t
        if isinstance(v, str) and v.startswith("a") and v[1:].isdigit():
            return int(v[1:]) in self.tp
        return False

    def solve(self):
        f = self.f
        ch = True
        while ch:
            ch = False
            for i in f.allinsts():
                if i.op == "br" and "cond" in i.d or i.op == "switch":
                    if self.tv(i.d["cond"]) and i.bb.id not in self.branches:
                        self.branches.add(i.bb.id)
                        for x in region(f, i.bb):
                            self.R.setdefault(x, i)
                        ch = True
                    continue
                if i.id in self.t:
                    continue
                n = False
                if diag_load(f, i):
                    n = True
                elif i.op == "load":
                    n = i.ops[0] in self.mem
                elif i.op == "phi":
                    n = any(self.tv(v) for v, b in i.d["inc"]) or self.merge(i)
                elif i.op == "call":
                    g = self.p.callee(i)
                    if g is not None and g.name in self.tr:
                        n = True
                    elif (g is None or g.decl) and i.callee not in OUT and i.ty != "void":
                        n = any(self.tv(a) for a in i.args if not isinstance(a, dict))
                elif i.op == "store":
                    if isinstance(i.ops[1], int) and f.insts[i.ops[1]].op == "alloca" and i.ops[1] not in self.mem:
                        if self.tv(i.ops[0]) or (i.bb.id in self.R and self.used_outside(i.ops[1])):
                            self.mem.add(i.ops[1])
                            ch = True
                elif i.op not in ("alloca", "ret", "getelementptr"):
                    n = any(self.tv(o) for o in i.ops if not isinstance(o, dict))
                elif i.op == "getelementptr":
                    n = any(self.tv(st.get("i")) for st in i.d["path"])
                if n:
                    self.t.add(i.id)
                    ch = True

    def used_outside(self, a):
        for i in self.f.allinsts():
            if i.op == "load" and i.ops[0] == a and i.bb.id not in self.R:
                return True
            if i.op == "call" and a in i.args and i.bb.id not in self.R:
                return True
        return False

    def merge(self, phi):
        """a phi outside the region that selects by which side was taken"""
        f = self.f
        for b in self.branches:
            if phi.bb.id == pidoms(f).get(b):
                R = region(f, f.blocks[b])
                vals = set()
                for v, src in phi.d["inc"]:
                    if src in R or src == b:
                        vals.add(str(v))
                if len(vals) > 1:
                    return True
        return False

    # ---- sinks
    def check(self):
        f, p, E = self.f, self.p, self.E
        for i in f.allinsts():
            inR = i.bb.id in self.R
            if i.op == "store":
                a = i.ops[1]
                loc = isinstance(a, int) and f.insts[a].op == "alloca"
                if self.tv(i.ops[0]) and not loc and not self.msg(i):
                    self.rep(f, i, "a value that depends on a diagnostic option is stored in %s" % self.where_to(i))
                if inR and not loc and not self.msg(i):
                    bad = [q for q in E.values(f, E.eff[f.name], a, {}) if self.visible(q)]
                    if bad:
                        self.rep(f, i, "%s is written only under a diagnostic option" % effects.fmt(f, sorted(bad, key=repr)[0]))
            elif i.op == "ret":
                if i.ops and self.tv(i.ops[0]):
                    self.ret = True
                if inR and len([b for b in f.blocks if b.insts[-1].op == "ret"]) > 1:
                    self.rep(f, i, "the function returns early only under a diagnostic option")
            elif i.op == "call":
                c = i.callee
                g = p.callee(i)
                if g is not None and not g.decl:
                    for k, a in enumerate(i.args):
                        if self.tv(a):
                            self.passed.setdefault(g.name, set()).add(k)
                elif c is None or not (c in OUT or c.startswith(("llvm.", "isl_", "glp_"))):
                    if any(self.tv(a) for a in i.args) and c not in OUT and c not in ("sprintf", "snprintf"):
                        self.rep(f, i, "a value that depends on a diagnostic option is passed to %s" % c)
                if inR:
                    if i.d.get("noreturn") and c != "__assert_fail":
                        self.rep(f, i, "%s ends the program only under a diagnostic option" % c)
                    if c in ("free", "realloc", "fclose"):
                        bad = [q for q in E.values(f, E.eff[f.name], i.args[0], {}) if self.visible(q)]
                        if bad:
                            self.rep(f, i, "%s is released only under a diagnostic option" % effects.fmt(f, sorted(bad, key=repr)[0]))
                    for q, what in self.effects_of(i):
                        if self.visible(q):
                            self.rep(f, i, "%s, called only under a diagnostic option, %s %s" % (p.cname(i), what, effects.fmt(f, q)))
                            break

    def effects_of(self, i):
        E, f = self.E, self.f
        e = E.eff[f.name]
        ce = E.eff.get(i.callee)
        heap = {}
        for d, s in e.stores:
            heap.setdefault(d, set()).add(s)
        lheap = getattr(e, "lheap", {})
        if ce is None:
            base = i.callee or ""
            if base.startswith("llvm."):
                base = base.split(".")[1]
            for k in effects.LIBC_WRITES.get(base, ()):
                if k < len(i.args):
                    for q in E.values(f, e, i.args[k], heap):
                        yield q, "writes"
            return
        for src, what in ((ce.definite, "changes"),):
            for pth in src:
                if pth[0][0] == "a" and pth[0][1] < len(i.args) and i.args[pth[0][1]] in e.weak:
                    continue
                for q in E._subst(f, e, i, i.args, pth, heap, lheap):
                    yield q, what

    def visible(self, q):
        r = q[0]
        if r[0] in ("a", "g"):
            return not any(st.startswith(("_IO_FILE", "FILE.")) for st in q[1:])
        if r[0] == "n":
            i = self.f.insts.get(r[1][0])
            return i is not None and i.bb.id not in self.R
        if r[0] == "l":
            return len(q) == 1 and self.used_outside(r[1])
        return False

    def msg(self, st):
        """verbosity of the solver"""
        a = st.ops[1]
        if isinstance(a, int) and self.f.insts[a].op == "getelementptr":
            return any(str(x.get("f", "")).endswith(".msg_lev") for x in self.f.insts[a].d["path"])
        return False

    def where_to(self, i):
        from ..expr import ExprCtx
        return ExprCtx(self.f).tag(i.ops[1])


def assertions(p, E, r):
    n = 0
    for f in p.repo_functions:
        for i in f.calls():
            if i.callee != "__assert_fail" or not i.args or not str(i.args[0]).startswith("s:"):
                continue
            n += 1
            text = i.args[0][2:]
            t = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', " ", text)
            if re.search(r"\+\+|--", t) or re.search(r"(?<![=!<>])=(?!=)", t):
                r.bad("%s|assert|%s" % (f.short, text[:60]), "%s: the assertion \"%s\" in %s changes a variable" % (i.where(), text, f.short))
                continue
            for c in set(re.findall(r"\b([A-Za-z_]\w*)\s*\(", t)) - {"sizeof"}:
                g = p.fn(c)
                if g is None:
                    continue
                e = E.eff[g.name]
                w = [q for q in e.definite if q[0][0] in ("a", "g")]
                if w:
                    r.bad("%s|assert|%s" % (f.short, c), "%s: the assertion \"%s\" in %s calls %s, which changes %s" %
                          (i.where(), text, f.short, c, effects.fmt(g, sorted(w, key=repr)[0])))
    return n


def run(ctx):
    r = Result()
    r.rule = ("Information-flow analysis with options->silent/debug/moredebug as source: a value computed from them or chosen "
              "by a branch on them may not be stored, returned to a use, or passed on, and code executed only under such a "
              "branch may not write, release or return anything that outlives it; assertion expressions have no side effects.")
    p, E = ctx.prog, ctx.eff
    tparams, trets = {}, set()
    fns = [f for f in p.repo_functions if not f.linkonce]
    loads = sum(1 for f in fns for i in f.allinsts() if diag_load(f, i))
    regions = 0
    last = []
    called = {p.callee(i).name for f in fns for i in f.calls() if p.callee(i) is not None}
    for rnd in range(6):
        last = []
        regions = 0
        np, nr = {}, set()

        def rep(f, i, msg):
            last.append((f, i, msg))
        for f in fns:
            if not tparams.get(f.name) and not any(diag_load(f, i) for i in f.allinsts()) and \
                    not any(p.callee(i) is not None and p.callee(i).name in trets for i in f.calls()):
                continue
            x = Fn(p, E, f, tparams.get(f.name, set()), trets, rep)
            x.check()
            regions += len(x.branches)
            if x.ret:
                nr.add(f.name)
                if not f.internal and f.name not in called:
                    rep(f, [b.insts[-1] for b in f.blocks if b.insts[-1].op == "ret"][0], "the result depends on a diagnostic option")
            for g, ks in x.passed.items():
                np.setdefault(g, set()).update(ks)
        if np == tparams and nr == trets:
            break
        tparams, trets = np, nr
    for f, i, msg in last:
        r.bad("%s|%s" % (f.short, msg), "%s: in %s %s" % (i.where(), f.short, msg))
    na = assertions(p, E, r)
    r.floor("reads_of_diagnostic_options", loads, 150)
    r.floor("branches_on_diagnostic_options", regions, 150)
    r.floor("assertions", na, 200)
    r.obligations = regions + na
    return r
