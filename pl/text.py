"""Texts and the memory they are written to.

A forward analysis of every function that builds texts.  Each piece of memory a
text can be written to (an array, a heap block) has a capacity and the length of
the text it holds, both as linear forms over symbols: the length of a string
somebody else owns, the number of digits of a value, an integer of the program.
Lengths are exact; where paths meet, a new symbol stands for the length, with an
upper bound.  Every write is an obligation: what is written, terminator
included, is at most what is there."""
import re
from .term import Terms, loops, contains, show
from .dom import rpo
from .expr import CASTS

FPC = {"sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"}
OPS = {"sprintf", "snprintf", "vsprintf", "vsnprintf", "strcpy", "strcat", "stpcpy", "strncpy", "strncat", "fgets", "gets",
       "fscanf", "sscanf", "scanf", "__isoc99_fscanf", "__isoc99_sscanf", "__isoc99_scanf", "__isoc23_fscanf", "__isoc23_sscanf",
       "__isoc23_scanf", "__sprintf_chk", "__snprintf_chk", "__strcpy_chk", "__strcat_chk", "__strncpy_chk"}
ALLOC = {"malloc": 0, "_Znam": 0, "_Znwm": 0, "calloc": None, "realloc": 1}
READS = {"memset", "free", "strncpy", "memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memset.p0.i64", "llvm.memmove.p0.p0.i64"}
MAXD = 3


class Form:
    __slots__ = ("c", "s", "_h")

    def __init__(self, c=0, s=None):
        self.c = c
        self.s = {k: v for k, v in (s or {}).items() if v}
        self._h = hash((c, frozenset(self.s.items())))

    def __eq__(self, o):
        return isinstance(o, Form) and self.c == o.c and self.s == o.s

    def __hash__(self):
        return self._h

    def __add__(self, o):
        if isinstance(o, int):
            return Form(self.c + o, self.s)
        s = dict(self.s)
        for k, v in o.s.items():
            s[k] = s.get(k, 0) + v
        return Form(self.c + o.c, s)

    def __mul__(self, n):
        return Form(self.c * n, {k: v * n for k, v in self.s.items()})

    def __sub__(self, o):
        return self + (o * -1 if isinstance(o, Form) else -o)

    def text(self):
        out = []
        for k, v in sorted(self.s.items(), key=repr):
            n = {"len": "strlen(%s)", "dig": "digits(%s)"}.get(k[0])
            t = n % show(k[1]) if n else show(k[1]) if k[0] == "n" else "?"
            out.append(t if v == 1 else "%d*%s" % (v, t))
        if self.c or not out:
            out.append(str(self.c))
        return "+".join(out)


def F(n):
    return Form(n)


def sym(k):
    return Form(0, {k: 1})


class Obj:
    __slots__ = ("cap", "len", "open", "zero", "heap")

    def __init__(self, cap, len=None, open=False, zero=None, heap=True):
        self.cap, self.len, self.open, self.zero, self.heap = cap, len, open, zero, heap

    def key(self):
        return (self.cap, self.len, self.open, self.zero, self.heap)

    def __eq__(self, o):
        return self.key() == o.key()

    def but(self, **kw):
        d = dict(cap=self.cap, len=self.len, open=self.open, zero=self.zero, heap=self.heap)
        d.update(kw)
        return Obj(**d)


class State:
    def __init__(self):
        self.objs, self.mem, self.vals = {}, {}, {}

    def copy(self):
        s = State()
        s.objs, s.mem, s.vals = dict(self.objs), dict(self.mem), dict(self.vals)
        return s

    def same(self, o):
        return self.objs == o.objs and self.mem == o.mem and self.vals == o.vals


def alts(pvs):
    out = set()
    for p in pvs:
        if p is None:
            continue
        if p[0] == "alts":
            out |= p[1]
        else:
            out.add(p)
    out.discard(("nul",)) if len(out) > 1 else None
    return next(iter(out)) if len(out) == 1 else ("alts", frozenset(out)) if out else None


def each(p):
    return sorted(p[1], key=repr) if p[0] == "alts" else [p]


class Text:
    """the analysis of the whole library"""

    def __init__(self, prog):
        self.p = prog
        self.upper = {}
        self.bad = {}           # key -> text
        self.writes = {}        # (function, instruction) -> what was shown
        self.deferred = {}      # function -> writes through its own parameter
        self.W = self.writers()

    # ---------------------------------------------------------------- which functions
    def writers(self):
        """functions that write a text through a parameter: {name: {parameter}}"""
        W = {}
        ch = True
        while ch:
            ch = False
            for f in self.p.repo_functions:
                for i in f.calls():
                    dsts = []
                    if i.callee in OPS:
                        dsts = [a for a in (i.args[:1] if "scanf" not in i.callee else i.args[1:])]
                    elif i.callee in W:
                        dsts = [i.args[k] for k in W[i.callee] if k < len(i.args)]
                    for a in dsts:
                        k = self.root(f, a)
                        if k is not None and k not in W.setdefault(f.name, set()):
                            W[f.name].add(k)
                            ch = True
        return {n: w for n, w in W.items() if w}

    def root(self, f, v, depth=0):
        while depth < 20:
            depth += 1
            if isinstance(v, str):
                return int(v[1:]) if v.startswith("a") and v[1:].isdigit() else None
            if not isinstance(v, int):
                return None
            i = f.insts[v]
            if i.op in CASTS or i.op == "getelementptr" and not any("f" in st for st in i.d["path"]):
                v = i.ops[0]
            elif i.op == "phi":
                for w, _ in i.d["inc"]:
                    if w != v:
                        k = self.root(f, w, depth + 5)
                        if k is not None:
                            return k
                return None
            else:
                return None
        return None

    def relevant(self, f):
        return any(i.callee in OPS or i.callee in self.W for i in f.calls())

    def makes(self, f):
        """a small function whose result may be a new text buffer"""
        return f.in_repo and f.blocks and f.retty and len(f.insts) < 120 and any(i.callee in ALLOC or i.callee in ("strdup", "strndup") for i in f.calls()) \
            and (f.sig or [""])[0].replace("const ", "").strip() in ("char*", "char *")

    def run(self):
        for f in self.p.repo_functions:
            if self.relevant(f):
                Run(self, f, (), {}, {}, State(), 0).go()

    # ---------------------------------------------------------------- arithmetic
    def fits(self, need, cap):
        d = cap - need
        for _ in range(12):
            neg = [k for k, v in d.s.items() if v < 0]
            if not neg:
                return d.c >= 0
            k = next((k for k in neg if self.upper.get(k) is not None), None)
            if k is None:
                return False
            d = d + (self.upper[k] - sym(k)) * d.s[k]
        return False

    def over(self, a, b):
        """an upper bound of both"""
        if a is None or b is None:
            return None
        return Form(max(a.c, b.c), {k: max(a.s.get(k, 0), b.s.get(k, 0)) for k in set(a.s) | set(b.s)})


class Run:
    """one function, with the parameters bound to what the caller passes"""

    def __init__(self, A, f, chain, bind, pvs, state, depth):
        self.A, self.f, self.chain, self.pvs, self.depth = A, f, chain, pvs, depth
        self.T = Terms(f, bind=bind, chain=chain)
        self.start = state
        self.rets = []
        self.end = None
        self.seen = {}

    # ---------------------------------------------------------------- fixpoint
    def go(self):
        f = self.f
        order = rpo(f)
        num = {b.id: k for k, b in enumerate(order)}
        ins = {order[0].id: self.start}
        outs = {}
        visits = {}
        work = {0}
        self.rep = False
        while work:
            k = min(work)
            work.discard(k)
            b = order[k]
            st = self.start if b is order[0] else self.meet(b, [(p, outs[p.id]) for p in b.pred if p.id in outs], visits.get(b.id, 0))
            if b.id in ins and visits.get(b.id) and st.same(ins[b.id]):
                continue
            ins[b.id] = st
            visits[b.id] = visits.get(b.id, 0) + 1
            if visits[b.id] > 12:
                continue
            outs[b.id] = self.block(b, st.copy())
            for s in b.succ:
                work.add(num[s.id])
        self.rep = True
        self.rets, ends = [], []
        for b in order:
            if b.id not in ins:
                continue
            o = self.block(b, ins[b.id].copy())
            if b.insts and b.insts[-1].op == "ret":
                ends.append(o)
                v = b.insts[-1].ops
                if v and self.f.retty and self.f.retty.startswith("ptr"):
                    pv = self.pv(o, v[0])
                    self.rets.append(pv)
                    self.use(o, b.insts[-1], pv)
        self.end = None
        if ends:
            self.end = ends[0]
            for k, e in enumerate(ends[1:]):
                self.end = self.join(self.end, e, ("ret", k), 0)
        return self

    def meet(self, b, ps, n):
        l = loops(self.f).get(b.id)
        st = None
        for p, s in ps:
            if l is not None and p.id in l.blocks:
                s = self.forget(s, l)
            st = s.copy() if st is None else self.join(st, s, b.id, n)
        return st

    def varies(self, t, l):
        if not isinstance(t, tuple):
            return False
        if t and t[0] in ("iv", "v", "call", "new") and len(t) >= 3:
            k = t[2] if t[0] != "call" else t[3]
            ch = t[1] if t[0] != "call" else t[2]
            if ch == self.chain and isinstance(k, int) and k in self.f.insts and self.f.insts[k].bb.id in l.blocks:
                return True
        return any(self.varies(x, l) for x in t if isinstance(x, tuple))

    def forget(self, s, l):
        """what was said about the previous round's elements"""
        s = s.copy()
        fv = lambda F_: F_ is not None and any(self.varies(k, l) for k in F_.s)
        s.mem = {a: v for a, v in s.mem.items() if not self.varies(a, l)}
        for o, x in list(s.objs.items()):
            if fv(x.cap):
                x = x.but(cap=None)
            if fv(x.len):
                up = self.A.fits(x.len, F(1 << 20))
                m = self.bound(x.len)
                x = x.but(len=None if m is None else self.new(("up", o, l.header.id), F(m)))
            if fv(x.zero):
                x = x.but(zero=None)
            s.objs[o] = x
        return s

    def bound(self, f):
        """constant upper bound"""
        for _ in range(12):
            pos = [k for k, v in f.s.items() if v > 0]
            if not pos:
                return f.c if not f.s else f.c
            k = next((k for k in pos if self.A.upper.get(k) is not None), None)
            if k is None:
                return None
            f = f + (self.A.upper[k] - sym(k)) * f.s[k]
        return None

    def new(self, k, up):
        k = k + (self.chain,)
        o = self.A.upper.get(k)
        if o is not None and up is not None:
            if self.A.fits(up, o):
                up = o
            else:
                up = self.A.over(up, o)
        if up is not None and k in up.s:
            up = None
        self.A.upper[k] = up
        return sym(k)

    def join(self, a, b, at, n):
        s = State()
        for o in set(a.objs) | set(b.objs):
            x, y = a.objs.get(o), b.objs.get(o)
            if x is None or y is None:
                s.objs[o] = x or y
                continue
            if x == y:
                s.objs[o] = x
                continue
            cap = x.cap if x.cap == y.cap else x.cap if x.cap is not None and y.cap is not None and self.A.fits(x.cap, y.cap) else \
                y.cap if x.cap is not None and y.cap is not None and self.A.fits(y.cap, x.cap) else None
            if x.len == y.len:
                ln = x.len
            elif x.len is None or y.len is None:
                ln = None
            else:
                k = ("j", o, at)
                ks = k + (self.chain,)
                grow = ks in x.len.s and x.len != sym(ks) or ks in y.len.s and y.len != sym(ks)
                others = [z.len for z in (x, y) if z.len != sym(ks)]
                if grow or n > 4:
                    ln = None
                elif len(others) == 1:
                    ln = self.new(k, others[0])
                else:
                    ln = self.new(k, self.A.over(*others))
            s.objs[o] = Obj(cap, ln, x.open or y.open, x.zero if x.zero == y.zero else None, x.heap)
        for k in set(a.mem) & set(b.mem):
            s.mem[k] = a.mem[k] if a.mem[k] == b.mem[k] else alts([a.mem[k], b.mem[k]])
        for k in set(a.vals) | set(b.vals):
            if a.vals.get(k, b.vals.get(k)) == b.vals.get(k, a.vals.get(k)):
                s.vals[k] = a.vals.get(k, b.vals.get(k))
        return s

    # ---------------------------------------------------------------- values
    def pv(self, s, v):
        if isinstance(v, str):
            if v.startswith("s:"):
                return ("lit", v[2:])
            if v == "null":
                return ("nul",)
            if v.startswith("a") and v[1:].isdigit() and int(v[1:]) in self.pvs:
                return self.pvs[int(v[1:])]
            return ("s", self.T.t(v))
        if isinstance(v, int) and v in s.vals and isinstance(s.vals[v], tuple):
            return s.vals[v]
        return ("s", self.T.t(v))

    def form(self, s, v, depth=0):
        if isinstance(v, str):
            if v.startswith("c:"):
                try:
                    return F(int(v[2:]))
                except ValueError:
                    return sym(("n", ("x", v)))
            if v.startswith("fp:"):
                try:
                    return F(int(float(v[3:])))
                except ValueError:
                    return sym(("n", ("x", v)))
            t = self.T.t(v)
            return F(t[1]) if t[0] == "c" else sym(("n", t))
        if not isinstance(v, int):
            return sym(("n", ("x", str(v))))
        if isinstance(s.vals.get(v), Form):
            return s.vals[v]
        i = self.f.insts[v]
        if depth < 20:
            if i.op in CASTS or i.op in FPC:
                return self.form(s, i.ops[0], depth + 1)
            if i.op in ("add", "fadd", "sub", "fsub"):
                a, b = self.form(s, i.ops[0], depth + 1), self.form(s, i.ops[1], depth + 1)
                return a + b if i.op.endswith("add") else a - b
            if i.op in ("mul", "fmul"):
                a, b = self.form(s, i.ops[0], depth + 1), self.form(s, i.ops[1], depth + 1)
                if not a.s:
                    return b * a.c
                if not b.s:
                    return a * b.c
            if i.op == "shl":
                b = self.form(s, i.ops[1], depth + 1)
                if not b.s and b.c < 32:
                    return self.form(s, i.ops[0], depth + 1) * (1 << b.c)
            if i.op == "call" and i.callee:
                c = i.callee
                g = self.A.p.functions.get(c)
                if c == "log10" or c.startswith("llvm.log10") or g is not None and not g.in_repo and re.search(r"\blog10\b", g.dem):
                    return self.digits(s, i.args[0], 20) - 1
                if c in ("floor", "trunc", "llvm.floor.f64", "llvm.trunc.f64"):
                    return self.form(s, i.args[0], depth + 1)
            if i.op == "phi":
                fs = {self.form(s, w, depth + 5) for w, _ in i.d["inc"] if w != v}
                if len(fs) == 1:
                    return fs.pop()
        t = self.T.t(v)
        if t[0] == "c":
            return F(t[1])
        return sym(("n", t))

    def digits(self, s, v, up):
        """the number of characters of a number"""
        n = 0
        while isinstance(v, int) and n < 6:
            i = self.f.insts[v]
            if i.op in ("zext", "sext"):
                st = i.d.get("sty")
                w = {"i1": (1, 2), "i8": (3, 4), "i16": (5, 6), "i32": (10, 11)}.get(st)
                if w:
                    up = min(up, w[0] if i.op == "zext" else w[1])
                v = i.ops[0]
            elif i.op in FPC or i.op in CASTS:
                v = i.ops[0]
            else:
                break
            n += 1
        fv = self.form(s, v)
        if not fv.s:
            return F(len(str(fv.c)))
        k = ("dig", self.T.t(v))
        o = self.A.upper.get(k)
        if o is None or o.c > up:
            self.A.upper[k] = F(up)
        return sym(k)

    def length(self, s, p):
        if p is None:
            return None
        if p[0] == "lit":
            return F(len(p[1].split("\0")[0]))
        if p[0] == "s":
            return sym(("len", p[1]))
        if p[0] == "o":
            x = s.objs.get(p[1])
            if x is None or x.len is None:
                return None
            return x.len - p[2]
        if p[0] == "alts":
            ls = [self.length(s, q) for q in each(p)]
            if any(l is None for l in ls):
                return None
            if len(set(ls)) == 1:
                return ls[0]
            up = ls[0]
            for l in ls[1:]:
                up = self.A.over(up, l)
            return self.new(("alt", p), up)
        return None

    def fmtlen(self, s, i, fmt, args):
        """the length of what a format prints; None: not bounded"""
        if fmt[0] == "alts":
            ls = [self.fmtlen(s, i, q, args) for q in each(fmt)]
            if any(l is None for l in ls):
                return None
            up = ls[0]
            for l in ls[1:]:
                up = self.A.over(up, l)
            return up if all(l == ls[0] for l in ls) else self.new(("fmt", i.id), up)
        if fmt[0] != "lit":
            return None
        out = F(0)
        pos = 0
        k = 0
        txt = fmt[1].split("\0")[0]
        for m in re.finditer(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])", txt):
            out = out + (m.start() - pos)
            pos = m.end()
            fl, wd, pr, mod, cv = m.groups()
            if cv == "%":
                out = out + 1
                continue
            if wd == "*" or "." in m.group(0) and pr == "*" and cv != "s":
                return None
            prec = None
            if pr == "*":
                prec = self.form(s, args[k])
                k += 1
            elif pr is not None:
                prec = F(int(pr))
            if k >= len(args):
                return None
            a = args[k]
            k += 1
            if cv in "diu":
                up = 20 if mod in ("l", "ll", "z", "j", "t") else 10 if cv == "u" else 11
                if mod == "hh":
                    up = 4
                elif mod == "h":
                    up = 6
                n = self.digits(s, a, up)
                if "+" in fl or " " in fl:
                    n = self.new(("sg", i.id, k), F(up if cv != "u" else up + 1))
                if prec is not None:
                    n = self.new(("pr", i.id, k), F(max(up, (prec.c if not prec.s else 400) + 1)))
            elif cv == "c":
                n = F(1)
            elif cv == "s":
                n = self.length(s, self.pv(s, a))
                if prec is not None:
                    if n is None or not self.A.fits(n, prec):
                        n = self.new(("pr", i.id, k), prec)
                if n is None:
                    return None
            elif cv in "xXo":
                n = self.new(("hx", i.id, k), F((16 if mod in ("l", "ll", "z") else 8) * (1 if cv != "o" else 2) + 2))
            elif cv == "p":
                n = self.new(("hx", i.id, k), F(18))
            else:
                n = self.new(("fp", i.id, k), F(350))
            if wd:
                b = self.bound(n)
                if b is None:
                    n = n + int(wd)
                else:
                    n = self.new(("wd", i.id, k), F(max(b, int(wd))))
            out = out + n
        return out + (len(txt) - pos)

    # ---------------------------------------------------------------- obligations
    def report(self, i, what, key):
        if self.rep:
            self.A.bad.setdefault("%s|%s" % (self.f.short, key), "%s: %s in %s" % (i.where(), what, self.f.short))

    def shown(self, i, ok):
        if self.rep:
            k = (self.f.name, i.id)
            self.A.writes[k] = self.A.writes.get(k, True) and ok

    def name(self, i):
        return "%s %s" % (i.callee, "#%d" % sum(1 for j in self.f.calls() if j.callee == i.callee and j.id < i.id))

    def write(self, s, i, dst, need, total=False):
        """need bytes are written at dst (total: from the start of the object)"""
        if not self.rep:
            return
        ok = True
        for p in each(dst) if dst else []:
            if p[0] == "nul":
                continue
            if p[0] != "o":
                if need == F(1):
                    continue
                if p[0] == "s" and self.ispar(p[1]):
                    self.A.deferred.setdefault(self.f.name, []).append(i)
                    continue
                ok = False
                self.report(i, "%s writes to memory of unknown size" % i.callee, "unknown|%s" % i.callee)
                continue
            x = s.objs.get(p[1])
            if x is None or x.cap is None:
                ok = False
                self.report(i, "%s writes to memory of unknown size" % i.callee, "unknown|%s" % i.callee)
                continue
            if need is None:
                ok = False
                self.report(i, "%s writes a text of unbounded length to %s bytes" % (i.callee, x.cap.text()), "unbounded|%s" % i.callee)
                continue
            if not self.A.fits(p[2] + need, x.cap):
                ok = False
                self.report(i, "%s writes up to %s bytes, %s are there" % (i.callee, (p[2] + need).text(), x.cap.text()), "overflow|%s" % i.callee)
        self.shown(i, ok)

    def ispar(self, t):
        while t[0] == "idx":
            t = t[1]
        if t[0] != "p" or self.depth:
            return False
        return any(i.callee == self.f.name for g in self.A.p.repo_functions for i in g.calls())

    def set(self, s, dst, ln, zero=None, opn=False):
        ps = [p for p in each(dst) if p[0] == "o" and p[1] in s.objs] if dst else []
        for p in ps:
            x = s.objs[p[1]]
            n = None if ln is None else p[2] + ln
            if len(ps) > 1 and x.len != n:
                n = None if n is None or x.len is None else self.new(("w", p[1]), self.A.over(n, x.len))
            s.objs[p[1]] = x.but(len=n, zero=zero if zero is not None else (x.zero if n is not None and x.zero is not None and self.A.fits(n, x.zero) else None), open=opn)

    def use(self, s, i, p):
        for q in each(p) if p else []:
            if q[0] == "o" and q[1] in s.objs and s.objs[q[1]].open:
                self.report(i, "a text is used that need not be terminated", "open|%s" % (i.callee or i.op))

    def alias(self, s, i, dst, srcs):
        ds = {p[1] for p in each(dst) if p[0] == "o"} | {p for p in each(dst) if p[0] == "s"}
        for a in srcs:
            if isinstance(a, str) and not a.startswith("a"):
                continue
            p = self.pv(s, a)
            for q in each(p) if p else []:
                if q[0] == "o" and q[1] in ds or q[0] == "s" and q in ds:
                    self.report(i, "%s reads the text it is writing over" % i.callee, "overlap|%s" % i.callee)

    # ---------------------------------------------------------------- transfer
    def block(self, b, s):
        for i in b.insts:
            self.step(s, i)
        return s

    def step(self, s, i):
        op = i.op
        if op == "alloca":
            m = re.match(r"\[(\d+) x i8\]$", i.d.get("aty", ""))
            if m or i.d.get("aty") == "i8" and i.ops[0] != "c:1":
                o = (self.chain, i.id)
                s.objs[o] = Obj(F(int(m.group(1))) if m else self.form(s, i.ops[0]), heap=False)
                s.vals[i.id] = ("o", o, F(0))
        elif op == "getelementptr":
            base = self.pv(s, i.ops[0])
            if any("f" in st for st in i.d["path"]):
                return
            ps = []
            for p in each(base) if base else []:
                if p[0] == "o":
                    off = p[2]
                    for st in i.d["path"]:
                        off = off + self.form(s, st["i"])
                    p = ("o", p[1], off)
                elif p[0] == "s":
                    p = ("s", self.T.t(i.id))
                elif p[0] == "lit":
                    n = sum((self.form(s, st["i"]) for st in i.d["path"]), F(0))
                    p = ("lit", p[1][n.c:]) if not n.s and 0 <= n.c <= len(p[1]) else ("s", self.T.t(i.id))
                ps.append(p)
            v = alts(ps)
            if v and v[0] != "s":
                s.vals[i.id] = v
            else:
                s.vals.pop(i.id, None)
        elif op == "load":
            if i.ty == "ptr":
                v = s.mem.get(self.T.t(i.ops[0]))
                if v is not None:
                    s.vals[i.id] = v
                else:
                    s.vals.pop(i.id, None)
            elif i.ty in ("i32", "i64"):
                v = s.mem.get(self.T.t(i.ops[0]))
                if isinstance(v, Form):
                    s.vals[i.id] = v
                else:
                    s.vals.pop(i.id, None)
        elif op == "store":
            self.store(s, i)
        elif op in ("phi", "select"):
            if i.ty == "ptr":
                vs = [w for w, _ in i.d["inc"]] if op == "phi" else i.ops[1:]
                ps = [self.pv(s, w) for w in vs if not (isinstance(w, int) and w not in s.vals and w >= 0 and self.late(w, i))]
                v = alts([p for p in ps if p != ("s", self.T.t(i.id))])
                if v is not None and v[0] != "s":
                    s.vals[i.id] = v
                else:
                    s.vals.pop(i.id, None)
        elif op in CASTS and i.ty == "ptr":
            v = self.pv(s, i.ops[0])
            if v[0] != "s":
                s.vals[i.id] = v
        elif op == "call":
            self.call(s, i)

    def late(self, w, i):
        """not computed yet on any path"""
        return self.f.insts[w].bb.id in {b for l in loops(self.f).values() if i.bb.id == l.header.id for b in l.blocks}

    def store(self, s, i):
        a = self.T.t(i.ops[1])
        v = i.ops[0]
        ty = i.d.get("vty") or i.d.get("sty") or (self.f.insts[v].ty if isinstance(v, int) else None)
        dst = self.pv(s, i.ops[1])
        if dst and dst[0] == "o" and dst[1] in s.objs and (ty == "i8" or ty is None and isinstance(v, str) and v.startswith("c:")):
            x = s.objs[dst[1]]
            off = dst[2]
            if x.cap is not None:
                d = x.cap - off
                if not d.s and d.c <= 0 or not off.s and off.c < 0:
                    self.report(i, "a character is written at %s, %s bytes are there" % (off.text(), x.cap.text()), "char")
            if v == "c:0":
                if x.len is not None and not x.open and self.A.fits(x.len, off):
                    s.objs[dst[1]] = x.but(zero=off)
                else:
                    s.objs[dst[1]] = x.but(len=off if not off.s and off.c == 0 else self.new(("z", dst[1], i.id), off), zero=off, open=False)
            elif x.len is not None and self.A.fits(off + 1, x.len):
                pass
            elif x.zero is not None and self.A.fits(off + 1, x.zero):
                s.objs[dst[1]] = x.but(len=self.new(("z", dst[1], i.id), x.zero))
            elif x.len is not None and self.A.fits(x.len + 1, off):
                pass
            else:
                s.objs[dst[1]] = x.but(len=None, open=False)
            return
        if isinstance(v, int) and self.f.insts[v].ty == "ptr" or isinstance(v, str) and (v == "null" or v.startswith("s:") or v.startswith("a") and v[1:].isdigit() and self.f.params[int(v[1:])]["ty"] == "ptr"):
            s.mem[a] = self.pv(s, v)
        else:
            s.mem.pop(a, None)
            if isinstance(v, int) and self.f.insts[v].ty in ("i32", "i64") and isinstance(s.vals.get(v), Form):
                s.mem[a] = s.vals[v]

    def call(self, s, i):
        c, a = i.callee, list(i.args)
        if c is None:
            return
        if c.startswith("__") and c.endswith("_chk"):
            c = c[2:-4]
            a = {"sprintf": [a[0]] + a[3:], "snprintf": [a[0], a[1]] + a[4:], "strcpy": a[:2], "strcat": a[:2], "strncpy": a[:3]}.get(c, a)
        c = re.sub(r"^__isoc\d+_", "", c)
        if c in ALLOC:
            o = (self.chain, i.id)
            if c == "calloc":
                x, y = self.form(s, a[0]), self.form(s, a[1])
                cap = x * y.c if not y.s else y * x.c if not x.s else sym(("n", self.T.t(i.id)))
                s.objs[o] = Obj(cap, F(0), zero=cap - 1)
            elif c == "realloc":
                old = self.pv(s, a[0])
                ln = F(0) if old == ("nul",) else self.length(s, old)
                s.objs[o] = Obj(self.form(s, a[1]), None if old == ("nul",) else ln)
            else:
                s.objs[o] = Obj(self.form(s, a[0]))
            s.vals[i.id] = ("o", o, F(0))
            return
        if c in ("strdup", "strndup"):
            ln = self.length(s, self.pv(s, a[0]))
            self.use(s, i, self.pv(s, a[0]))
            if c == "strndup":
                n = self.form(s, a[1])
                if ln is None or not self.A.fits(ln, n):
                    ln = self.new(("nd", i.id), n)
            o = (self.chain, i.id)
            if ln is None:
                ln = sym(("len", ("v", self.chain, i.id)))
            s.objs[o] = Obj(ln + 1, ln)
            s.vals[i.id] = ("o", o, F(0))
            return
        if c == "strlen":
            p = self.pv(s, a[0])
            self.use(s, i, p)
            ln = self.length(s, p)
            s.vals[i.id] = ln if ln is not None else sym(("n", ("v", self.chain, i.id)))
            return
        if c in ("sprintf", "snprintf"):
            k = 1 if c == "sprintf" else 2
            dst = self.pv(s, a[0])
            fmt = self.pv(s, a[k])
            for x in a[k + 1:]:
                self.use(s, i, self.pv(s, x))
            if dst[0] != "nul":
                self.alias(s, i, dst, [x for x in a[k + 1:] if self.isptr(x)])
            ln = self.fmtlen(s, i, fmt, a[k + 1:])
            if ln is not None:
                s.vals[i.id] = ln
            else:
                s.vals.pop(i.id, None)
            if dst[0] == "nul":
                return
            if c == "sprintf":
                self.write(s, i, dst, None if ln is None else ln + 1)
            else:
                n = self.form(s, a[1])
                if ln is not None and self.A.fits(ln + 1, n) and all(p[0] != "o" or p[1] in s.objs and s.objs[p[1]].cap is not None and self.A.fits(p[2] + ln + 1, s.objs[p[1]].cap) for p in each(dst)):
                    self.shown(i, True)
                else:
                    self.write(s, i, dst, n)
                    if not any(j.op == "icmp" and i.id in j.ops for j in self.f.allinsts()):
                        self.report(i, "snprintf can cut the text (up to %s bytes into %s)" % ((ln + 1).text() if ln else "any number of", n.text()), "cut")
                    ln = self.new(("sn", i.id), n - 1)
            self.set(s, dst, ln)
            return
        if c in ("vsprintf", "gets"):
            self.write(s, i, self.pv(s, a[0]), None)
            self.set(s, self.pv(s, a[0]), None)
            return
        if c == "vsnprintf":
            n = self.form(s, a[1])
            d = self.pv(s, a[0])
            if d[0] != "nul":
                self.write(s, i, d, n)
                self.set(s, d, self.new(("sn", i.id), n - 1))
            return
        if c in ("strcpy", "stpcpy", "strcat"):
            dst, src = self.pv(s, a[0]), self.pv(s, a[1])
            self.use(s, i, src)
            self.alias(s, i, dst, [a[1]])
            ln = self.length(s, src)
            if c == "strcat":
                self.use(s, i, dst)
                d0 = self.length(s, dst)
                ln = None if d0 is None or ln is None else d0 + ln
            self.write(s, i, dst, None if ln is None else ln + 1)
            self.set(s, dst, ln)
            s.vals[i.id] = dst
            return
        if c == "strncat":
            dst, src = self.pv(s, a[0]), self.pv(s, a[1])
            n, ln, d0 = self.form(s, a[2]), self.length(s, src), self.length(s, dst)
            if ln is None or not self.A.fits(ln, n):
                ln = self.new(("sn", i.id), n)
            ln = None if d0 is None else d0 + ln
            self.write(s, i, dst, None if ln is None else ln + 1)
            self.set(s, dst, ln)
            return
        if c == "strncpy":
            dst, src, n = self.pv(s, a[0]), self.pv(s, a[1]), self.form(s, a[2])
            self.use(s, i, src)
            self.write(s, i, dst, n)
            ln = self.length(s, src)
            for p in [p for p in each(dst) if p[0] == "o" and p[1] in s.objs]:
                x = s.objs[p[1]]
                if ln is not None and self.A.fits(ln + 1, n):
                    self.set(s, p, ln)
                    continue
                if x.heap and n != ln:
                    self.report(i, "strncpy can cut the text", "cut")
                if x.zero is not None and self.A.fits(p[2] + n, x.zero):
                    s.objs[p[1]] = x.but(len=self.new(("sn", i.id), x.zero), open=False)
                else:
                    s.objs[p[1]] = x.but(len=None, open=True, zero=None)
            s.vals[i.id] = dst
            return
        if c == "fgets":
            dst, n = self.pv(s, a[0]), self.form(s, a[1])
            self.write(s, i, dst, n)
            self.set(s, dst, self.new(("sn", i.id), n - 1))
            return
        if c in ("fscanf", "sscanf", "scanf"):
            k = 1 if c == "scanf" else 2
            self.scan(s, i, self.pv(s, a[k - 1]), a[k:])
            return
        if c.startswith(("memcpy", "memmove", "mempcpy", "llvm.memcpy", "llvm.memmove")):
            self.copy(s, i, self.pv(s, a[0]), self.pv(s, a[1]), self.form(s, a[2]))
            if not c.startswith("llvm"):
                s.vals[i.id] = self.pv(s, a[0])
            return
        if c.startswith(("memset", "llvm.memset")):
            dst, n = self.pv(s, a[0]), self.form(s, a[2])
            self.raw(s, i, dst, n)
            if a[1] == "c:0":
                self.set(s, dst, F(0), zero=n - 1)
            else:
                self.set(s, dst, None)
            return
        g = self.A.p.functions.get(i.callee)
        for x in a:
            if self.isptr(x):
                self.use(s, i, self.pv(s, x))
        if g is not None and g.in_repo and g.blocks and self.depth < MAXD and g.name not in [x for x, _ in self.chain] and g is not self.f:
            inl = i.callee in self.A.W and any(self.pv(s, a[k])[0] in ("o", "alts") for k in self.A.W[i.callee] if k < len(a))
            if inl or self.A.makes(g):
                self.inline(s, i, g, a)
                return
            if i.callee in self.A.W:
                for k in self.A.W[i.callee]:
                    if k < len(a):
                        p = self.pv(s, a[k])
                        self.write(s, i, p, None) if p[0] == "s" and not self.ispar(p[1]) and not self.A.p.functions[i.callee].sig is None and self.charp(g, k) else None
        for x in a:
            if self.isptr(x):
                t = self.T.t(x)
                s.mem.pop(t, None)
        s.vals.pop(i.id, None)

    def charp(self, g, k):
        return bool(g.sig) and k + 1 < len(g.sig) and g.sig[k + 1].replace("const ", "").strip() in ("char*", "char *")

    def isptr(self, v):
        if isinstance(v, int):
            return self.f.insts[v].ty == "ptr"
        return isinstance(v, str) and (v.startswith("a") and v[1:].isdigit() and self.f.params[int(v[1:])]["ty"] == "ptr" or v.startswith("s:"))

    def inline(self, s, i, g, a):
        ch = self.chain + ((self.f.name, i.id),)
        bind = {k: self.T.t(x) for k, x in enumerate(a)}
        pvs = {}
        vals = {}
        for k, x in enumerate(a):
            if self.isptr(x):
                pvs[k] = self.pv(s, x)
        st = s.copy()
        st.vals = {}
        r = Run(self.A, g, ch, bind, pvs, st, self.depth + 1)
        r.forms = {k: self.form(s, x) for k, x in enumerate(a) if not self.isptr(x)}
        r.rep0 = self.rep
        if not self.rep:
            r.go0()
        else:
            r.go()
        if r.end is not None:
            s.objs, s.mem = r.end.objs, r.end.mem
        v = alts([x for x in r.rets])
        if v is not None and v[0] != "s":
            s.vals[i.id] = v
        else:
            s.vals.pop(i.id, None)

    def go0(self):
        """without reporting"""
        bad, wr, df = dict(self.A.bad), dict(self.A.writes), {k: list(v) for k, v in self.A.deferred.items()}
        self.go()
        self.A.bad, self.A.writes, self.A.deferred = bad, wr, df
        return self

    def raw(self, s, i, dst, n):
        for p in each(dst):
            if p[0] == "o" and p[1] in s.objs and s.objs[p[1]].cap is not None:
                d = s.objs[p[1]].cap - p[2] - n
                if not d.s and d.c < 0:
                    self.report(i, "%s writes %s bytes, %s are there" % (i.callee, n.text(), s.objs[p[1]].cap.text()), "overflow|mem")

    def copy(self, s, i, dst, src, n):
        ln = self.length(s, src) if src[0] in ("o", "lit") or src[0] == "s" and ("len", src[1]) in n.s else None
        text = ln is not None and (not ln.s and src[0] == "lit" or any(k in n.s for k in ln.s))
        if not text:
            self.raw(s, i, dst, n)
            if any(p[0] == "o" for p in each(dst)):
                self.set(s, dst, None)
            return
        self.write(s, i, dst, n)
        if self.A.fits(ln + 1, n):
            self.set(s, dst, ln)
        else:
            z = None
            for p in each(dst):
                if p[0] == "o" and p[1] in s.objs:
                    x = s.objs[p[1]]
                    if x.zero is not None and self.A.fits(p[2] + n, x.zero):
                        s.objs[p[1]] = x.but(len=self.new(("sn", i.id), x.zero), open=False)
                    else:
                        s.objs[p[1]] = x.but(len=None, open=True, zero=None)

    def scan(self, s, i, fmt, args):
        for q in each(fmt):
            if q[0] != "lit":
                continue
            k = 0
            for m in re.finditer(r"%(\*)?(\d+)?(m)?(hh|h|ll|l|z|j|t|L)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])", q[1]):
                star, wd, ms, mod, cv = m.groups()
                if star or cv == "%":
                    continue
                if k >= len(args):
                    break
                d = args[k]
                k += 1
                if ms:
                    s.mem.pop(self.T.t(d), None)
                    continue
                if cv == "s" or cv[0] == "[":
                    p = self.pv(s, d)
                    self.write(s, i, p, F(int(wd) + 1) if wd else None)
                    self.set(s, p, self.new(("sc", i.id, k), F(int(wd))) if wd else None)
                elif cv == "c":
                    self.raw(s, i, self.pv(s, d), F(int(wd or 1)))
