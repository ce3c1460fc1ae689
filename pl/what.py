"""What a function does to the objects it is given, in a form that does not depend
on how it is written.

The control flow graph of a function is traversed once per combination of the
conditions it distinguishes; every loop stands for its general iteration (its
index is an atom that carries the number of iterations), helpers are entered,
asserts and diagnostics are left out.  Values are linear forms over what the
parameters lead to when the function is entered, so that it does not matter
whether a position is computed before or after a count was changed.  The result
is a list of leaves: the conditions, the effects (assignments, growing and
shrinking of the parts, calls) and the value returned."""
import re
from math import gcd
from .expr import CASTS
from .term import loops, noreturn
from .dom import dominates

PRINT = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fwrite", "fflush", "putc", "perror", "isl_handle_error", "vprintf", "vfprintf"}
NULL = ("null",)
LIMIT = 20000
# what is described is what is done with diagnostics off (C10: they do not influence anything else)
QUIETLY = {"plutoOptions.debug": 0, "plutoOptions.moredebug": 0, "plutoOptions.silent": 1}
# functions with a meaning of their own: (counts they change)
CHANGES = {
    "pluto_matrix_add_row": (("pluto_matrix.nrows", 1),), "pluto_matrix_add_col": (("pluto_matrix.ncols", 1),),
    "pluto_matrix_remove_row": (("pluto_matrix.nrows", -1),), "pluto_matrix_remove_col": (("pluto_matrix.ncols", -1),),
    "pluto_constraints_add_dim": (("pluto_constraints.ncols", 1),), "pluto_constraints_remove_dim": (("pluto_constraints.ncols", -1),),
    "pluto_constraints_add_inequality": (("pluto_constraints.nrows", 1),), "pluto_constraints_add_equality": (("pluto_constraints.nrows", 1),),
    "pluto_constraints_remove_row": (("pluto_constraints.nrows", -1),),
}
# counts that are not zero where a function has something to do
COUNTS = {"nstmts", "ndeps", "ntransdeps", "npar", "nreads", "nwrites", "nrows", "ncols", "num_hyperplanes", "dim", "nvar", "num_data",
          "num_sccs", "nVertices", "size", "alloc_nrows", "alloc_ncols"}
# pointers that are looked at before they are used (the others are there)
OPTIONAL = {"pluto_constraints.names"}


class TooMany(Exception):
    pass


class Lin:
    __slots__ = ("c", "s", "_h")

    def __init__(self, c=0, s=None):
        self.c = c
        self.s = {k: v for k, v in (s or {}).items() if v}
        self._h = hash((c, frozenset(self.s.items())))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.s == o.s

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "L" + render(self)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.s)
        s = dict(self.s)
        for k, v in o.s.items():
            s[k] = s.get(k, 0) + v
        return Lin(self.c + o.c, s)

    def __mul__(self, n):
        return Lin(self.c * n, {k: v * n for k, v in self.s.items()})

    def __sub__(self, o):
        return self + (o * -1 if isinstance(o, Lin) else -o)

    def const(self):
        return not self.s


def atom(a):
    return Lin(0, {a: 1})


def product(a, b):
    """sums are multiplied out"""
    r = Lin(0)
    for x, n in list(a.s.items()) + ([(None, a.c)] if a.c else []):
        for y, m in list(b.s.items()) + ([(None, b.c)] if b.c else []):
            fs = [f for z in (x, y) if z is not None for f in (z[1:] if z[0] == "mul" else (z,))]
            t = Lin(1) if not fs else atom(fs[0]) if len(fs) == 1 else atom(("mul",) + tuple(sorted(fs, key=render)))
            r = r + t * (n * m)
    return r


def subst(v, m):
    """replace atoms (in linear forms) and terms"""
    if isinstance(v, Lin):
        if not v.s:
            return v
        r = Lin(v.c)
        for a, n in v.s.items():
            x = m.get(a)
            if x is None:
                b = subst(a, m)
                x = b if isinstance(b, Lin) else atom(b)
            r = r + (x if isinstance(x, Lin) else atom(x)) * n
        return r
    if isinstance(v, tuple):
        if v in m:
            return m[v]
        return tuple(subst(x, m) if isinstance(x, (tuple, Lin)) else x for x in v)
    return v


def has(v, pred):
    if isinstance(v, Lin):
        return any(has(a, pred) for a in v.s)
    if isinstance(v, tuple):
        return pred(v) or any(has(x, pred) for x in v if isinstance(x, (tuple, Lin)))
    return False


# ---------------------------------------------------------------- rendering
HIST = []


class History:
    """objects made on a path are known by how they were made and what was done to them since"""

    def __init__(self, st):
        self.st, self.now, self.memo, self.stack = st, len(st.ev), {}, []

    def object(self, v):
        if v in self.stack:
            return "it" if v == self.stack[-1] else "that"
        key = (v, self.now)
        if key not in self.memo:
            self.stack.append(v)
            old = self.now
            args = [x for x in v[2:] if not (isinstance(x, tuple) and x and x[0] in ("again", "at"))]
            if v[1] == "pluto_constraints_alloc":
                args = args[1:]          # (how much room there is does not matter)
            made = self.st.when.get(v, 0)
            self.now = min(made, old)
            txt = "%s(%s)" % (v[1], ", ".join(render(x) for x in args))
            es = []
            for n in range(made, old):
                e = self.st.ev[n]
                if v in e[4]:
                    self.now = n
                    es.append((e, text(e)))
            self.now = old
            self.stack.pop()
            if v[1] == "memory":
                es = settle(es)
            es = order(es)
            self.memo[key] = "{%s}" % "; ".join((txt,) + es) if es else txt
        return self.memo[key]


def render(v, names=None):
    if isinstance(v, Lin):
        if not v.s:
            return str(v.c)
        out = []
        for a, n in sorted(((render(a, names), n) for a, n in v.s.items()), key=lambda x: (x[1] < 0, x[0])):
            out.append(("+" if n > 0 else "-") + ("" if abs(n) == 1 else "%d*" % abs(n)) + a)
        r = "".join(out) + ("%+d" % v.c if v.c else "")
        return r[1:] if r[0] == "+" else r
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == "p":
        return "arg%d" % v[1]
    if k == "null":
        return "NULL"
    if k == "ld":
        return render(v[1], names) + ("'" if len(v) > 2 and v[2] else "")
    if k == "fld":
        return render(v[1], names) + "->" + v[2].split(".", 1)[-1]
    if k == "idx":
        return render(v[1], names) + "[" + render(v[2], names) + "]"
    if k == "k":
        if names is not None and v in names:
            return names[v]
        return "i<%s>" % (render(v[2], names) if v[2] is not None else "?")
    if k == "icmp":
        return "(%s %s %s)" % (render(v[2], names), v[1], render(v[3], names))
    if k == "new":
        if HIST:
            return HIST[-1].object(v)
        return "%s(%s)" % (v[1], ", ".join(render(x, names) for x in v[2:]))
    if k == "call":
        return "%s(%s)" % (v[1], ", ".join(render(x, names) for x in v[2:]))
    if k == "loc":
        return "local"
    if k in ("fld", "idx") and isinstance(v[1], tuple) and v[1] and v[1][0] == "new":
        pass
    if k == "each":
        return render(v[1], names)
    return "%s(%s)" % (k, ", ".join(render(x, names) for x in v[1:]))


def ks(v, out):
    if isinstance(v, Lin):
        for a in sorted(v.s, key=lambda x: render(x)):
            ks(a, out)
    elif isinstance(v, tuple):
        if v and v[0] == "k":
            if v not in out:
                out.append(v)
        for x in v:
            if isinstance(x, (tuple, Lin)):
                ks(x, out)
    return out


def canon(parts, ctx):
    """text of an effect; loop indices named by their range"""
    found = []
    for p in parts:
        ks(p, found)
    for k in ctx:
        if k not in found:
            found.append(k)
    names, used = {}, {}
    for k in found:
        b = "i<%s>" % (render(k[2]) if k[2] is not None else "?")
        n = used.get(b, 0)
        used[b] = n + 1
        names[k] = b if n == 0 else b + "'" * n
    inside = sorted(render(k, names) for k in ctx)
    return " ".join(render(p, names) if not isinstance(p, str) else p for p in parts) + (" for " + ",".join(inside) if inside else "")


# ---------------------------------------------------------------- conditions
def boolean(v):
    """(key, truth) | True | False"""
    if isinstance(v, Lin):
        if v.const():
            return v.c != 0
        if len(v.s) == 1:
            (a, n), = v.s.items()
            if a[0] == "icmp" and n in (1, -1) and v.c == 0:
                return compare(a[1], a[2], a[3])
        return compare("ne", v, Lin(0))
    if isinstance(v, tuple) and v[0] == "icmp":
        return compare(v[1], v[2], v[3])
    if isinstance(v, tuple):
        return compare("ne", v, NULL)
    return (("b", v), True)


def flip(x):
    return (not x) if isinstance(x, bool) else (x[0], not x[1])


def isbool(v):
    if isinstance(v, tuple) and v and v[0] == "icmp":
        return v
    if isinstance(v, Lin) and v.c == 0 and len(v.s) == 1:
        (a, n), = v.s.items()
        if a[0] == "icmp" and n in (1, -1):
            return a
    return None


def compare(p, a, b):
    if a == Lin(0) and isinstance(b, tuple):
        a = NULL
    if b == Lin(0) and isinstance(a, tuple) and not isbool(a):
        b = NULL
    for x, y in ((a, b), (b, a)):
        t = isbool(x)
        if t and isinstance(y, Lin) and y.const() and p in ("eq", "ne"):
            r = compare(t[1], t[2], t[3])
            return r if (p == "ne") == (y.c == 0) else flip(r)
    if isinstance(a, tuple) and isinstance(b, tuple):
        d = pdiff(a, b)
        if d is not None:
            a, b = d, Lin(0)
        elif p in ("eq", "ne"):
            if a == b:
                return p == "eq"
            x, y = sorted((a, b), key=lambda t: (t == NULL, render(t)))
            return (("peq", x, y), p == "eq")
        else:
            return (("b", ("icmp", p, a, b)), True)
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        return (("b", ("icmp", p, a, b)), True)
    if p in ("eq", "ne"):
        d = a - b
        if d.const():
            return (d.c == 0) == (p == "eq")
        if lead(d) < 0:
            d = d * -1
        return (("eq", d), p == "eq")
    if p[0] in "fo" and p not in ("false",):
        pass
    s = p[1:]
    d = {"lt": b - a - 1, "le": b - a, "gt": a - b - 1, "ge": a - b}.get(s)
    if d is None:
        return (("b", ("icmp", p, a, b)), True)
    if d.const():
        return d.c >= 0
    if lead(d) < 0:
        return (("ge", d * -1 - 1), False)
    return (("ge", d), True)


def lead(d):
    return d.s[min(d.s, key=lambda x: render(x))]


def pdiff(a, b):
    """distance of two elements of the same array"""
    def at(x):
        return (x[1], x[2]) if x[0] == "idx" else (x, Lin(0))
    (x, i), (y, j) = at(a), at(b)
    if x == y and (a[0] == "idx" or b[0] == "idx"):
        return i - j
    return None


def field(a):
    while isinstance(a, tuple) and a[0] in ("ld", "idx"):
        a = a[1]
    return a[2] if isinstance(a, tuple) and a[0] == "fld" else None


class Facts:
    """what has been assumed on a path"""

    def __init__(self):
        self.iv = {}       # linear part -> (lo, hi, excluded)
        self.b = {}        # other condition -> truth

    def copy(self):
        f = Facts()
        f.iv, f.b = dict(self.iv), dict(self.b)
        return f

    @staticmethod
    def part(d):
        return Lin(0, d.s)

    def rng(self, l):
        r = self.iv.get(l)
        if r is None:
            if len(l.s) == 1:
                (a, n), = l.s.items()
                if n == 1 and a[0] == "ld" and (field(a) or ".").split(".")[1] in COUNTS:
                    return (1, None, frozenset())
                if n == 1 and a[0] in ("NPAR", "k"):
                    return (1 if a[0] == "NPAR" else 0, None, frozenset())
            return (None, None, frozenset())
        return r

    def ask(self, key):
        if key[0] in ("eq", "ge"):
            l, c = self.part(key[1]), -key[1].c
            lo, hi, ne = self.rng(l)
            if any(a[0] == "k" for a in l.s):
                x, y = bounds(l)
                if x is not None and (lo is None or x > lo):
                    lo = x
                if y is not None and (hi is None or y < hi):
                    hi = y
            if key[0] == "ge":
                if lo is not None and lo >= c:
                    return True
                if hi is not None and hi < c:
                    return False
                return None
            if lo is not None and hi is not None and lo == hi == c:
                return True
            if c in ne or (lo is not None and c < lo) or (hi is not None and c > hi):
                return False
            return None
        return self.b.get(key)

    def add(self, key, truth):
        if key[0] in ("eq", "ge"):
            l, c = self.part(key[1]), -key[1].c
            lo, hi, ne = self.rng(l)
            if key[0] == "ge":
                if truth:
                    lo = c if lo is None else max(lo, c)
                else:
                    hi = c - 1 if hi is None else min(hi, c - 1)
            elif truth:
                lo = hi = c
            else:
                ne = ne | {c}
                if lo == c:
                    lo += 1
                if hi == c:
                    hi -= 1
            self.iv[l] = (lo, hi, ne)
        else:
            self.b[key] = truth


class State:
    __slots__ = ("env", "mem", "facts", "ev", "ctx", "dirs", "quiet", "made", "outs", "when")

    def __init__(self):
        self.env, self.mem, self.facts, self.ev, self.ctx, self.dirs, self.quiet, self.made, self.outs, self.when = {}, {}, Facts(), [], (), {}, 0, frozenset(), {}, {}

    def copy(self):
        s = State.__new__(State)
        s.env, s.mem, s.facts, s.ev = dict(self.env), dict(self.mem), self.facts.copy(), list(self.ev)
        s.ctx, s.dirs, s.quiet, s.made, s.outs, s.when = self.ctx, dict(self.dirs), self.quiet, self.made, dict(self.outs), dict(self.when)
        return s


class Frame:
    n = 0

    def __init__(self, f, args, depth, chain):
        self.f, self.args, self.depth, self.chain = f, args, depth, chain
        Frame.n += 1
        self.id = Frame.n


class What:
    def __init__(self, prog, E, stop=(), writes=None):
        self.p, self.E, self.stop = prog, E, set(stop) | set(CHANGES)
        self.writes = writes or {}
        self.count = 0
        self.loopn = 0
        self.makers = {f.short for f in prog.repo_functions if f.retty == "ptr" and f.name in E.eff and
                       not self.effect(f).writes and not self.effect(f).frees} | {"strdup", "fopen", "isl_ctx_alloc"}

    def effect(self, g):
        """what a function that is not entered may change (as recorded)"""
        if g is None or g.decl:
            return None
        w = self.writes.get(g.short)
        return w if w is not None else self.E.eff.get(g.name)

    # ------------------------------------------------------------ entry
    def leaves(self, f):
        self.count = 0
        args = [("p", k) if q["ty"] == "ptr" else atom(("p", k)) for k, q in enumerate(f.params)]
        fr = Frame(f, args, 0, (f.name,))
        out = []
        for o in self.go(fr, f.blocks[0], None, State(), ()):
            if o[0] == "ret":
                out.append((o[1], o[2]))
        return out

    # ------------------------------------------------------------ values
    def val(self, fr, st, v):
        if isinstance(v, dict):
            if v.get("ce") == "getelementptr":
                return self.gep(fr, st, self.val(fr, st, v["ops"][0]), v["path"])
            if v.get("ops"):
                return self.val(fr, st, v["ops"][0])
            return ("x", str(v))
        if isinstance(v, str):
            if v.startswith("a") and v[1:].isdigit():
                k = int(v[1:])
                return fr.args[k] if k < len(fr.args) else ("x", v)
            if v.startswith("c:"):
                t = v[2:]
                if t in ("true", "false"):
                    return Lin(1 if t == "true" else 0)
                try:
                    return Lin(int(t))
                except ValueError:
                    return atom(("x", v))
            if v == "null":
                return NULL
            if v in ("undef", "poison"):
                return Lin(0)
            return ("x", v)
        r = st.env.get((fr.id, v))
        if r is None:
            return ("undef", fr.f.short, v)
        return r

    def lin(self, v):
        if isinstance(v, Lin):
            return v
        return atom(v)

    def gep(self, fr, st, base, path):
        r = base
        for k, s in enumerate(path):
            if "f" in s:
                r = ("fld", r, s["f"])
            else:
                i = self.lin(self.val(fr, st, s["i"]))
                if k == 0 and i == Lin(0):
                    continue
                if r[0] == "idx" and k == 0:
                    r = ("idx", r[1], r[2] + i)
                    if r[2] == Lin(0):
                        r = r[1]
                else:
                    r = ("idx", r, i)
        return r

    def load(self, st, a, ptr):
        if a in st.mem:
            return st.mem[a]
        if a[0] == "idx" and a[2] == Lin(0) and a[1] in st.mem:
            return st.mem[a[1]]
        if a in st.outs:
            t = st.outs[a]
            return t if ptr else atom(t)
        r = a
        while isinstance(r, tuple) and r[0] in ("fld", "idx"):
            r = r[1]
        if isinstance(r, tuple) and r[0] == "new" and r[1] == "memory" and not any(r in e[4] for e in st.ev):
            return NULL if ptr else Lin(0)
        if a[0] == "fld" and a[2] in QUIETLY:
            return Lin(QUIETLY[a[2]])
        if a[0] == "fld":
            x = self.columns(a)
            if x is not None:
                return x
        mark = 0
        fl = a[2] if a[0] == "fld" else None
        for b in st.mem:
            if fl and b[0] == "fld" and b[2] == fl and b[1] != a[1] and fl in ("statement.dim",):
                mark = 1
            elif a[0] == "idx" and b[0] == "idx" and a[1] == b[1]:
                d = a[2] - b[2]
                if not d.const() and self.order(st, a, b):
                    mark = 1
        t = ("ld", a, mark)
        return t if ptr else atom(t)

    def columns(self, a):
        """the number of columns of the parts of a program, when the function is entered"""
        if a[2] == "plutoProg.npar":
            return atom(("NPAR",))
        if a[2] not in ("pluto_matrix.ncols", "pluto_constraints.ncols"):
            return None
        x = a[1]
        if x[0] != "ld" or x[1][0] != "fld":
            return None
        o, fl = x[1][1], x[1][2]
        n = atom(("NPAR",)) + 1

        def dim(s):
            return atom(("ld", ("fld", s, "statement.dim"), 0))
        if fl in ("statement.domain", "statement.trans"):
            return dim(o) + n
        if fl in ("plutoProg.param_context", "plutoProg.codegen_context"):
            return n
        if fl == "pluto_access.mat" and o[0] == "ld" and o[1][0] == "idx" and o[1][1][0] == "ld" and o[1][1][1][0] == "fld" and \
                o[1][1][1][2] in ("statement.reads", "statement.writes"):
            return dim(o[1][1][1][1]) + n
        if fl in ("dependence.dpolytope", "dependence.bounding_poly") and o[0] == "ld" and o[1][0] == "idx" and o[1][1][0] == "ld" and \
                o[1][1][1][0] == "fld" and o[1][1][1][2] in ("plutoProg.deps", "plutoProg.transdeps"):
            prog = o[1][1][1][1]

            def st(f):
                return ("ld", ("idx", ("ld", ("fld", prog, "plutoProg.stmts"), 0), atom(("ld", ("fld", o, f), 0))), 0)
            return dim(st("dependence.src")) + dim(st("dependence.dest")) + n
        return None

    def order(self, st, a, b):
        """can an earlier assignment to b have changed a?  (in a loop over the same array: no, when the index is
        the same up to a constant)"""
        return False

    # ------------------------------------------------------------ traversal
    def go(self, fr, b, pred, st, ls):
        f = fr.f
        L = loops(f)
        if ls and b.id not in ls[-1].blocks:
            yield ("exit", st, pred, b)
            return
        if b.id in L and pred is not None and pred.id in L[b.id].blocks and ls and ls[-1] is L[b.id]:
            yield ("latch", st, pred)
            return
        self.count += 1
        if self.count > LIMIT:
            raise TooMany(f.short)
        if noreturn(b):
            return
        if b.id in L and (not ls or ls[-1] is not L[b.id]):
            yield from self.loop(fr, L[b.id], pred, st, ls)
            return
        self.phis(fr, b, pred, st)
        yield from self.block(fr, b, 0, st, ls)

    def phis(self, fr, b, pred, st):
        new = {}
        for i in b.insts:
            if i.op != "phi":
                break
            for v, k in i.d["inc"]:
                if pred is not None and k == pred.id:
                    new[(fr.id, i.id)] = self.val(fr, st, v)
        st.env.update(new)

    def block(self, fr, b, n, st, ls):
        insts = b.insts
        while n < len(insts):
            i = insts[n]
            n += 1
            if i.op == "phi":
                continue
            if i.op == "call":
                g = self.p.callee(i)
                if self.inlined(fr, i, g, st):
                    fr2 = Frame(g, [self.val(fr, st, a) for a in i.args], fr.depth + 1, fr.chain + (g.name,))
                    for o in self.go(fr2, g.blocks[0], None, st, ()):
                        if o[0] != "ret":
                            continue
                        s2 = o[1]
                        if o[2] is not None:
                            s2.env[(fr.id, i.id)] = o[2]
                        yield from self.block(fr, b, n, s2, ls)
                    return
                self.call(fr, i, g, st)
            elif i.op == "ret":
                v = self.val(fr, st, i.ops[0]) if i.ops else None
                if fr.f.retty == "i1":
                    if isinstance(v, Lin) and v.const():
                        v = Lin(1 if v.c else 0)
                    elif isbool(v):
                        c = boolean(v)
                        k = c if isinstance(c, bool) else self.decided(st, c[0])
                        if k is not None:
                            v = Lin(int(k if isinstance(c, bool) else k == c[1]))
                        else:
                            s2 = st.copy()
                            s2.facts.add(*c)
                            yield ("ret", s2, Lin(1))
                            st.facts.add(c[0], not c[1])
                            v = Lin(0)
                yield ("ret", st, v)
                return
            elif i.op == "br":
                yield from self.branch(fr, b, i, st, ls)
                return
            elif i.op == "switch":
                yield from self.switch(fr, b, i, st, ls)
                return
            elif i.op == "unreachable":
                return
            elif i.op == "select" or i.op in ("zext", "sext") and fr.f.insts[i.ops[0]].ty == "i1" if i.ops and isinstance(i.ops[0], int) else False:
                # a choice between values is a choice between paths
                v = self.val(fr, st, i.ops[0])
                if i.op != "select" and isinstance(v, Lin) and not isbool(v):
                    st.env[(fr.id, i.id)] = v          # a copy
                    continue
                c = boolean(v)
                if not isinstance(c, bool):
                    k = self.decided(st, c[0])
                    if k is not None:
                        c = k == c[1]
                if i.op == "select":
                    a, z = self.val(fr, st, i.ops[1]), self.val(fr, st, i.ops[2])
                else:
                    a, z = Lin(1 if i.op == "zext" else -1), Lin(0)
                if isinstance(c, bool):
                    st.env[(fr.id, i.id)] = a if c else z
                    continue
                self.count += 1
                if self.count > LIMIT:
                    raise TooMany(fr.f.short)
                s2 = st.copy()
                st.facts.add(*c)
                st.env[(fr.id, i.id)] = a
                yield from self.block(fr, b, n, st, ls)
                s2.facts.add(c[0], not c[1])
                s2.env[(fr.id, i.id)] = z
                yield from self.block(fr, b, n, s2, ls)
                return
            else:
                self.inst(fr, i, st)

    def decided(self, st, key):
        k = st.facts.ask(key)
        if k is None and key[0] == "peq" and key[2] == NULL and self.present(key[1]):
            k = field(key[1]) == "pluto_constraints.next" and key[1][0] == "ld"
        return k

    def branch(self, fr, b, i, st, ls):
        f = fr.f
        if len(i.succ) == 1 or i.succ[0] == i.succ[1]:
            yield from self.go(fr, f.blocks[i.succ[0]], b, st, ls)
            return
        t, e = f.blocks[i.succ[0]], f.blocks[i.succ[1]]
        c = boolean(self.val(fr, st, i.d["cond"]))
        if ls:
            L = ls[-1]
            if (t.id in L.blocks) != (e.id in L.blocks):
                stay = t.id in L.blocks
                rec = L.__dict__.setdefault("_rec", None)
                if rec is not None:
                    rec.append((b.id, c, stay))
                if getattr(L, "_test", None) == b.id:
                    yield from self.go(fr, t if stay else e, b, st, ls)
                    return
        if isinstance(c, bool):
            yield from self.go(fr, t if c else e, b, st, ls)
            return
        if dead(t):
            yield from self.go(fr, e, b, st, ls)
            return
        if dead(e):
            yield from self.go(fr, t, b, st, ls)
            return
        key, tr = c
        k = self.decided(st, key)
        if k is not None:
            yield from self.go(fr, t if k == tr else e, b, st, ls)
            return
        s2 = st.copy()
        st.facts.add(key, tr)
        yield from self.go(fr, t, b, st, ls)
        s2.facts.add(key, not tr)
        yield from self.go(fr, e, b, s2, ls)

    def present(self, a):
        if a[0] == "ld":
            return field(a) is not None and a[1][0] in ("fld", "idx") and field(a) not in OPTIONAL
        return a[0] in ("new", "loc", "fld", "idx", "each")

    def switch(self, fr, b, i, st, ls):
        f = fr.f
        c = i.d.get("cond")
        v = self.lin(self.val(fr, st, c if c is not None else i.ops[0]))
        rest = st
        for k, n in enumerate(i.d.get("cases", [])):
            blk = i.succ[k + 1]
            key = compare("eq", v, Lin(int(n)))
            if key is True:
                yield from self.go(fr, f.blocks[blk], b, rest, ls)
                return
            if key is False:
                continue
            known = rest.facts.ask(key[0])
            if known is not None:
                if known == key[1]:
                    yield from self.go(fr, f.blocks[blk], b, rest, ls)
                    return
                continue
            s2 = rest.copy()
            s2.facts.add(*key)
            yield from self.go(fr, f.blocks[blk], b, s2, ls)
            rest.facts.add(key[0], not key[1])
        if not dead(f.blocks[i.succ[0]]):
            yield from self.go(fr, f.blocks[i.succ[0]], b, rest, ls)

    # ------------------------------------------------------------ loops
    def step(self, f, l, phi):
        """constant step of a header phi"""
        if phi.id in l.ivs:
            return l.ivs[phi.id][1]
        if phi.ty == "ptr":
            st = set()
            for v, blk in phi.d["inc"]:
                if blk not in l.blocks:
                    continue
                j = f.insts[v] if isinstance(v, int) else None
                if j is not None and j.op == "getelementptr" and j.ops[0] == phi.id and len(j.d["path"]) == 1 and str(j.d["path"][0].get("i")).startswith("c:"):
                    st.add(int(j.d["path"][0]["i"][2:]))
                else:
                    return None
            if len(st) == 1:
                return st.pop()
        return None

    def loop(self, fr, l, pred, st, ls):
        f, H = fr.f, l.header
        phis = [i for i in H.insts if i.op == "phi"]
        init = {}
        for i in phis:
            for v, k in i.d["inc"]:
                if k == pred.id:
                    init[i.id] = self.val(fr, st, v)
        steps = {i.id: self.step(f, l, i) for i in phis}
        level = len(st.ctx)
        self.loopn += 1
        K = ("k", level, None)
        chain = any(i.ty == "ptr" and self.nextwalk(f, l, i) for i in phis)      # (of one element)

        def at(i, k):
            """value of an affine phi in iteration k"""
            v = init.get(i)
            if isinstance(v, Lin):
                return v + k * steps[i]
            return ("idx", v[1], v[2] + k * steps[i]) if v[0] == "idx" else ("idx", v, k * steps[i])

        def enter(s, k, others, kk):
            for i in phis:
                if steps[i.id] is not None:
                    s.env[(fr.id, i.id)] = at(i.id, k)
                else:
                    s.env[(fr.id, i.id)] = others[i.id]
            if kk is not None and not chain:
                s.ctx = st.ctx + (kk,)

        # 1. trial iteration: how the loop is left, and what changes from one iteration to the next
        self_ = {}
        for i in phis:
            t = ("self", self.loopn, i.id)
            self_[i.id] = ("each", init[i.id]) if i.ty == "ptr" and self.nextwalk(f, l, i) else t if i.ty == "ptr" else atom(t)
        s0 = st.copy()
        s0.quiet += 1
        enter(s0, atom(K), self_, K)
        l._rec, l._test = [], None
        latch = []
        base = dict(s0.mem)
        for o in self.block(fr, H, 0, s0, ls + (l,)):
            if o[0] == "latch":
                latch.append(o)
        rec, l._rec = l._rec, None
        test = count = None
        after = False
        for bid, c, stay in rec:
            n = self.bound(c, stay, K)
            if n is not None:
                after = (bid != H.id or H in l.latches) and all(dominates(f, f.blocks[bid], x) for x in l.latches) and f.blocks[bid] in l.latches
                test, count = bid, n + (1 if after else 0)
                if len({x for x in (self.bound(c2, s2, K) for b2, c2, s2 in rec if b2 == bid)}) > 1:
                    count = atom(("var", count))       # it depends on the path
                break
        if test is None:
            for bid, c, stay in rec:
                if bid == H.id:
                    test = bid
                    break
        others = {}
        slopes = {}
        reduced = {}
        for i in phis:
            if steps[i.id] is not None:
                continue
            vals, where = set(), []
            for o in latch:
                for v, k in i.d["inc"]:
                    if k == o[2].id:
                        x = self.val(fr, o[1], v)
                        vals.add(x)
                        where.append((x, o[1]))
            me = self_[i.id]
            ds = {(v - me).c if isinstance(v, Lin) and isinstance(me, Lin) and (v - me).const() else None for v in vals}
            if vals == {me}:
                slopes[i.id] = 0
            elif len(ds) == 1 and None not in ds and isinstance(init[i.id], Lin):
                slopes[i.id] = ds.pop()
            else:
                slopes[i.id] = None
                if isinstance(me, Lin) and isinstance(init[i.id], Lin):
                    reduced[i.id] = self.reduction(me, vals, where)
            if i.ty == "ptr" and self_[i.id][0] == "each":
                others[i.id] = init[i.id]
            else:
                t = ("acc" if (reduced.get(i.id) or " ")[0] == "sum" else "var", init[i.id])
                others[i.id] = t if i.ty == "ptr" else atom(t)
        kk = ("k", level, count)
        asc = all(steps[i.id] is None or steps[i.id] >= 0 for i in phis if steps[i.id] is not None and self.drives(f, l, i, test))
        kform = atom(kk) if asc or count is None else Lin(count.c - 1, count.s) - atom(kk)
        for i in phis:
            if slopes.get(i.id) is not None and i.id in others:
                o = init[i.id]
                others[i.id] = o if slopes[i.id] == 0 else o + kform * slopes[i.id]
        # places that change by the same amount in every iteration
        mems, adds = {}, {}
        for o in latch:
            for a, v in o[1].mem.items():
                if base.get(a) == v or has(a, lambda t: t == K or t[0] == "self" and t[1] == self.loopn):
                    continue
                b = base.get(a)
                if b is None:
                    b = self.load(st, a, not isinstance(v, Lin))
                d = v - b if isinstance(v, Lin) and isinstance(b, Lin) else None
                if d is not None and not d.const() and not has(d, lambda t: t[0] in ("self", "ld") and (t[0] == "self" or t[1] == a)):
                    adds.setdefault(a, set()).add(d)
                else:
                    adds.setdefault(a, set()).add(None)
                mems.setdefault(a, set()).add((d.c if d is not None and d.const() else None, b if isinstance(b, (Lin, tuple)) else None))
        adds = {a: next(iter(x)) for a, x in adds.items() if len(x) == 1 and None not in x}
        adds = {a: x for a, x in adds.items() if all(o[1].mem.get(a) is not None and base.get(a) != o[1].mem[a] for o in latch)}
        # 2. the general iteration
        s1 = st.copy()
        enter(s1, kform, others, kk)
        s1.dirs[kk] = 1 if asc else -1
        for a, ds in mems.items():
            if len(ds) == 1:
                d, b = next(iter(ds))
                if d is not None:
                    s1.mem[a] = b + kform * d
                elif isinstance(b, Lin):
                    s1.mem[a] = atom(("acc" if a in adds else "var", b))
        l._test = test
        outs = list(self.block(fr, H, 0, s1, ls + (l,)))
        l._test = None
        for o in outs:
            s2 = o[1]
            s2.ctx = st.ctx
            if o[0] == "ret":
                yield o
            elif o[0] == "exit":
                yield from self.go(fr, o[3], o[2], s2, ls)
            else:
                for a, ds in mems.items():
                    if len(ds) == 1:
                        d, b = next(iter(ds))
                        if d is not None and count is not None:
                            s2.mem[a] = b + count * d
                        elif isinstance(b, Lin) and a in adds and count is not None:
                            s2.mem[a] = atom(("sum", b, subst(adds[a], {K: kform})))
                        elif isinstance(b, Lin):
                            s2.mem[a] = atom(("var", b))
                if test is None:
                    continue
                tb = f.blocks[test]
                ex = [x for x in tb.succ if x.id not in l.blocks]
                if test == H.id:
                    fin = {}
                    for i in phis:
                        if steps[i.id] is None:
                            if slopes.get(i.id) is not None and count is not None:
                                fin[i.id] = init[i.id] + count * slopes[i.id] if slopes[i.id] else init[i.id]
                            elif self_[i.id][0] == "each" if isinstance(self_[i.id], tuple) else False:
                                fin[i.id] = NULL
                            elif reduced.get(i.id) and count is not None:
                                op, x = reduced[i.id]
                                fin[i.id] = atom((op, init[i.id], subst(x, {K: kform})))
                            else:
                                fin[i.id] = others[i.id]
                    enter(s2, count if count is not None else atom(("n", level)), fin, None)
                    s2.quiet += 1
                    for j in H.insts:
                        if j.op in ("phi", "br", "switch", "ret"):
                            continue
                        if j.op == "call":
                            g = self.p.callee(j)
                            if not self.inlined(fr, j, g, s2):
                                self.call(fr, j, g, s2)
                        else:
                            self.inst(fr, j, s2)
                    s2.quiet -= 1
                elif count is not None:
                    if after:
                        m = {kk: count - 1 if asc else Lin(0)}
                    else:
                        m = {kk: count if asc else Lin(-1)}
                    for x in list(s2.env):
                        if x[0] == fr.id and f.insts[x[1]].bb.id in l.blocks:
                            s2.env[x] = subst(s2.env[x], m)
                yield from self.go(fr, ex[0], tb, s2, ls)

    def reduction(self, me, vals, where):
        """how a value is accumulated: (what, operand)"""
        (a,) = me.s
        mine = lambda t: t == a
        rest = [v for v in vals if v != me]
        if len(rest) != 1 or not isinstance(rest[0], Lin):
            return None
        v = rest[0]
        if not has(v - me, mine) and me not in vals:
            return ("sum", v - me)
        if has(v, mine):
            return None

        def known(st, p):
            c = compare(p, v, me)
            if isinstance(c, bool):
                return c
            k = st.facts.ask(c[0])
            return k is not None and k == c[1]
        for op, up, down in (("max", "sge", "sle"), ("min", "sle", "sge")):
            if all(known(st, up if x == v else down) for x, st in where) and me in vals:
                return (op, v)
        return None

    def nextwalk(self, f, l, phi):
        for v, blk in phi.d["inc"]:
            if blk not in l.blocks:
                continue
            j = f.insts[v] if isinstance(v, int) else None
            if j is None or j.op != "load" or not isinstance(j.ops[0], int):
                return False
            g = f.insts[j.ops[0]]
            if g.op != "getelementptr" or g.ops[0] != phi.id or not any(s.get("f") == "pluto_constraints.next" for s in g.d["path"]):
                return False
        return True

    def drives(self, f, l, phi, test):
        """does the loop end with this induction variable?"""
        if test is None:
            return True
        t = f.blocks[test].insts[-1]
        seen, work = set(), [t.d.get("cond")]
        while work:
            v = work.pop()
            if v == phi.id:
                return True
            if not isinstance(v, int) or v in seen:
                continue
            seen.add(v)
            j = f.insts[v]
            if j.op in CASTS or j.op in ("icmp", "add", "sub"):
                work += [x for x in j.ops if isinstance(x, int)]
        return False

    def bound(self, c, stay, K):
        """number of iterations, from the condition under which the loop goes on"""
        if isinstance(c, bool):
            return None
        key, tr = c
        if key[0] not in ("eq", "ge"):
            return None
        if not stay:
            tr = not tr
        x = key[1]
        A = x.s.get(K, 0)
        if not A or any(has(a, lambda t: t == K) for a in x.s if a != K):
            return None
        B = Lin(x.c, {a: n for a, n in x.s.items() if a != K})
        if key[0] == "eq":
            if tr or abs(A) != 1:
                return None
            return B * -A
        if not tr:
            A, B = -A, B * -1 - 1
        if A != -1:
            return None
        return B + 1

    # ------------------------------------------------------------ instructions
    def inst(self, fr, i, st):
        op = i.op
        key = (fr.id, i.id)
        V = lambda v: self.val(fr, st, v)
        if op in CASTS:
            v = V(i.ops[0])
            st.env[key] = v
        elif op == "getelementptr":
            st.env[key] = self.gep(fr, st, V(i.ops[0]), i.d["path"])
        elif op == "load":
            a = V(i.ops[0])
            st.env[key] = self.load(st, a, i.ty == "ptr") if isinstance(a, tuple) else atom(("ld", ("x",), 0))
        elif op == "store":
            self.store(st, V(i.ops[1]), V(i.ops[0]))
        elif op == "alloca":
            st.env[key] = ("loc", fr.id, i.id)
        elif op in ("add", "sub"):
            a, b = self.lin(V(i.ops[0])), self.lin(V(i.ops[1]))
            st.env[key] = a + b if op == "add" else a - b
        elif op == "mul":
            a, b = self.lin(V(i.ops[0])), self.lin(V(i.ops[1]))
            st.env[key] = product(a, b)
        elif op == "shl":
            a, b = self.lin(V(i.ops[0])), self.lin(V(i.ops[1]))
            st.env[key] = a * (1 << b.c) if b.const() else atom(("shl", a, b))
        elif op == "icmp":
            a, b = V(i.ops[0]), V(i.ops[1])
            st.env[key] = ("icmp", i.d["pred"], a, b)
        elif op == "select":
            c = boolean(V(i.ops[0]))
            if not isinstance(c, bool):
                k = st.facts.ask(c[0])
                if k is not None:
                    c = k == c[1]
            a, b = V(i.ops[1]), V(i.ops[2])
            t = ("sel", V(i.ops[0]), a, b)
            st.env[key] = (a if c else b) if isinstance(c, bool) else t if i.ty == "ptr" else atom(t)
        elif op in ("xor",) and i.ty == "i1" and str(i.ops[1]) in ("c:true", "c:1", "c:-1"):
            c = boolean(V(i.ops[0]))
            st.env[key] = Lin(int(not c)) if isinstance(c, bool) else ("icmp", "eq", V(i.ops[0]), Lin(0))
        else:
            vs = [V(o) for o in i.ops]
            if op in ("and", "or", "xor", "fmul", "fadd"):
                vs = sorted(vs, key=render)
            if all(isinstance(v, Lin) and v.const() for v in vs) and len(vs) == 2 and op in ("and", "or", "xor", "sdiv", "udiv"):
                a, b = vs[0].c, vs[1].c
                st.env[key] = Lin({"and": a & b, "or": a | b, "xor": a ^ b}[op] if op in ("and", "or", "xor") else (a // b if b else 0))
            elif op in ("sdiv", "udiv") and isinstance(vs[1], Lin) and vs[1].const() and vs[1].c and isinstance(vs[0], Lin) and \
                    vs[0].c % vs[1].c == 0 and all(n % vs[1].c == 0 for n in vs[0].s.values()):
                st.env[key] = Lin(vs[0].c // vs[1].c, {a: n // vs[1].c for a, n in vs[0].s.items()})
            else:
                if op == "fcmp":
                    op = "fcmp " + i.d["pred"]
                st.env[key] = atom((op,) + tuple(vs))

    def local(self, a):
        while a[0] in ("fld", "idx"):
            a = a[1]
        return a[0] == "loc"

    @staticmethod
    def under(a, b):
        while isinstance(a, tuple) and a[0] in ("fld", "idx", "ld"):
            a = a[1]
            if a == b:
                return True
        return False

    def touched(self, g, c, e, A):
        """places a call may change"""
        out = []
        for k, x in enumerate(A):
            if not isinstance(x, tuple) or x[0] in ("null", "x"):
                continue
            if e is None:
                if not c.startswith("isl_"):
                    out.append(x)
                continue
            for w in e.writes:
                if w[0] == ("a", k):
                    t = x
                    for s in w[1:]:
                        t = ("ld", t, 0) if s == "*" else ("idx", t, Lin(0)) if s == "[]" else ("fld", t, s) if "." in s else t
                    out.append(t)
        return out

    def store(self, st, a, v):
        if not isinstance(a, tuple):
            return
        if isinstance(v, tuple) and v == ("ld", a, 0) and a not in st.mem:
            return           # an array put back where it was
        if v == NULL and a[0] == "fld" and a[2] == "pluto_constraints.next" and a not in st.mem:
            return           # (there is no next one)
        if isinstance(v, tuple) and v[0] == "ld" and v[1][0] == "idx" and a[0] == "idx" and a[1] == v[1][1] and \
                field(a) in ("pluto_matrix.val", "pluto_constraints.val") and a[1][0] == "ld":
            # rows change places
            mat = a[1][1][1]
            n = self.lin(self.load(st, ("fld", mat, field(a).split(".")[0] + ".ncols"), False))
            kk = ("k", len(st.ctx), n)
            old, st.ctx = st.ctx, st.ctx + (kk,)
            self.event(st, "set", ("idx", ("ld", a, 0), atom(kk)), ":=", atom(("ld", ("idx", v, atom(kk)), 0)))
            st.ctx = old
            st.mem[a] = v
            return
        arr = a[1] if a[0] == "idx" else None
        if arr is not None:
            for b in [b for b in st.mem if b[0] == "idx" and b[1] == arr and b != a and not (b[2] - a[2]).const()]:
                del st.mem[b]
        st.mem[a] = v
        if self.local(a) or st.quiet:
            return
        d = ()
        if arr is not None:
            src = []
            def visit(t):
                if t[0] == "ld" and t[1][0] == "idx" and self.samearray(t[1], a) and t[1] != a:
                    src.append(t)
                return False
            has(v, visit)
            if src:
                d = tuple(sorted({st.dirs.get(k, 1) for s in src for k in ks(s, []) if k in st.ctx}))
        self.event(st, "set", a, ":=", v, *(["backwards"] if -1 in d else []))

    def samearray(self, x, y):
        """elements of one array (at any index)"""
        while True:
            if x[0] != y[0]:
                return False
            if x[0] in ("idx",):
                x, y = x[1], y[1]
            elif x[0] == "ld":
                x, y = x[1], y[1]
            else:
                return x == y

    def event(self, st, kind, obj, *rest):
        if st.quiet:
            return
        objs = set()
        for a in (obj if kind == "call" else (obj,)):
            while a[0] in ("fld", "idx", "ld"):
                a = a[1]
            if a[0] == "new":
                objs.add(a)
        st.ev.append((kind, obj, rest, st.ctx, frozenset(objs)))

    # ------------------------------------------------------------ calls
    def inlined(self, fr, i, g, st):
        if g is None or g.decl or not g.blocks or g.short in self.stop or g.name in fr.chain or fr.depth >= 4:
            return False
        if not g.in_repo:
            return False
        if g.noreturn:
            return False
        e = self.effect(g)
        if e is not None and not e.writes and not e.frees and (g.retty == "void" or not self.used(fr.f, i)):
            return False
        return True

    def used(self, f, i):
        u = getattr(f, "_usedv", None)
        if u is None:
            u = set()
            for j in f.allinsts():
                for o in list(j.ops) + list(j.args) + [j.d.get("cond")] + [v for v, b in j.d.get("inc", [])]:
                    if isinstance(o, int):
                        u.add(o)
                for s in j.d.get("path", []):
                    if isinstance(s.get("i"), int):
                        u.add(s["i"])
            f._usedv = u
        return i.id in u

    def new(self, fr, i, st, what):
        """a new object, known by the call that made it"""
        n = 0
        while True:
            t = ("new",) + what + (("again", n),) * (n > 0)
            if t not in st.made:
                st.made = st.made | {t}
                st.when[t] = len(st.ev)
                return t
            n += 1

    def call(self, fr, i, g, st):
        c = g.short if g is not None else i.callee or "?"
        key = (fr.id, i.id)
        A = [self.val(fr, st, a) for a in i.args]
        ptr = i.ty == "ptr"
        if c.startswith("llvm.mem"):
            c = c.split(".")[1]
        elif c.startswith("llvm."):
            if ".dbg." not in c and "lifetime" not in c and "stack" not in c and i.ty != "void":
                st.env[key] = atom(("call", c) + tuple(A))
            elif i.ty != "void":
                st.env[key] = ("x", c)
            return
        if c in PRINT:
            st.env[key] = Lin(0)
            return
        if c == "realloc":
            st.env[key] = self.new(fr, i, st, ("memory", ("at", ""))) if A[0] == NULL else A[0]
            return
        if c in ("malloc", "calloc", "_Znwm", "_Znam"):
            st.env[key] = self.new(fr, i, st, ("memory", ("at", fr.f.short if False else "")))
            return
        if c in ("memmove", "memcpy", "memset", "bzero"):
            self.bulk(st, c, A)
            st.env[key] = A[0]
            return
        if g is not None and not g.decl and g.name in fr.chain:
            t = A[0] if A else None
            if isinstance(t, tuple) and t[0] == "ld" and field(t) == "pluto_constraints.next" and i.ty == "void":
                return
        e = self.effect(g)
        pure = (e is not None and not e.writes and not e.frees) or c in QUERIES
        if pure and c != "strdup" and not (ptr and e is not None):
            if i.ty != "void":
                t = ("call", c) + tuple(A)
                st.env[key] = t if ptr else atom(t)
            return
        if c == "strdup" or (e is None and c.startswith("isl_") and i.ty != "void" and not any(isinstance(x, tuple) and self.local(x) or x[0] == "x" and str(x[1]).startswith("f:") for x in A if isinstance(x, tuple))):
            t = ("call", c) + tuple(A)
            st.env[key] = t if ptr else atom(t)
            return
        if c == "free" or c.endswith("_free") or c in ("_ZdlPv", "_ZdaPv", "_ZdlPvm"):
            st.env[key] = NULL
            return
        self.event(st, "call", tuple(self.touched(g, c, e, A)), c, *A)
        for k, x in enumerate(A):
            if isinstance(x, tuple) and self.local(x):
                for m in [m for m in st.mem if m == x or self.under(m, x)]:
                    del st.mem[m]
                if x[0] == "loc":
                    st.outs[x] = ("out", c, k)
        if c in CHANGES and isinstance(A[0], tuple):
            for fl, d in CHANGES[c]:
                a = ("fld", A[0], fl)
                v = self.load(st, a, False)
                st.mem[a] = self.lin(v) + d
        elif e is not None:
            # what the function may have changed is not what it was
            for w in e.writes:
                fl = w[-1] if isinstance(w[-1], str) and "." in w[-1] else None
                if fl:
                    for a in [a for a in st.mem if field(a) == fl]:
                        del st.mem[a]
        if i.ty != "void":
            t = self.new(fr, i, st, (c,) + tuple(A)) if ptr else atom(("result", c) + tuple(A))
            st.env[key] = t

    def bulk(self, st, c, A):
        dst = A[0]
        n = self.lin(A[-1] if c == "bzero" else A[2])
        if n.const() and c in ("memcpy", "memmove") and isinstance(dst, tuple) and isinstance(A[1], tuple):
            self.store(st, dst, self.load(st, A[1], True))     # a whole structure
            return
        g = abs(n.c)
        for x in n.s.values():
            g = gcd(g, abs(x))
        if g > 8 and not n.const():
            g = 8 if g % 8 == 0 else g
        cnt = Lin(n.c // g, {a: x // g for a, x in n.s.items()}) if g else n
        kk = ("k", len(st.ctx), cnt)

        def el(p):
            return ("idx", p[1], p[2] + atom(kk)) if p[0] == "idx" else ("idx", p, atom(kk))
        if not isinstance(dst, tuple):
            return
        old = st.ctx
        st.ctx = old + (kk,)
        if c in ("memset", "bzero"):
            self.store(st, el(dst), Lin(0) if c == "bzero" else self.lin(A[1]))
        elif isinstance(A[1], tuple):
            s, d = el(A[1]), el(dst)
            if c == "memmove":
                df = pdiff(d, s)
                st.dirs[kk] = -1 if df is not None and not (df.const() and df.c < 0) else 1
            self.store(st, d, self.load(st, s, False))
        st.ctx = old


def dead(b):
    """a block that leads to an assertion failure only"""
    seen = set()
    while b.id not in seen:
        seen.add(b.id)
        if noreturn(b):
            return True
        if len(b.succ) != 1:
            return False
        b = b.succ[0]
    return False


# ---------------------------------------------------------------- summaries
OBJ = ("pluto_matrix.", "pluto_constraints.")


def resource(a):
    """the part of an object an effect belongs to (any element of an array)"""
    seq = []
    t = a
    while t[0] in ("fld", "idx", "ld"):
        seq.append(t)
        t = t[1]
    seq.reverse()
    r = render(t)
    for x in seq:
        if x[0] == "ld":
            continue
        if x[0] == "fld":
            if x[2].startswith(OBJ):
                return r
            if r.endswith("[]"):
                # a member of an element that is not behind a pointer is part of the array
                pass
            r += "->" + x[2].split(".", 1)[-1]
        elif not r.endswith("[]"):
            r += "[]"
    return r[:-2] if r.endswith("[]") else r


def bounds(d):
    """the least and the greatest value of a linear form, when known"""
    lo = hi = d
    for a, n in d.s.items():
        if a[0] == "k" and a[2] is not None:
            top = a[2] - 1
            z = Lin(0, {a: n})
            if n > 0:
                lo, hi = lo - z, hi - z + top * n
            else:
                lo, hi = lo - z + top * n, hi - z
    return (lo.c if lo.const() else None), (hi.c if hi.const() else None)


def apart(a, b):
    """are the two addresses certainly different?"""
    def seq(t):
        s = []
        while t[0] in ("fld", "idx", "ld"):
            s.append(t)
            t = t[1]
        s.reverse()
        return t, s
    (r1, s1), (r2, s2) = seq(a), seq(b)
    if r1 != r2:
        return False
    for x, y in zip(s1, s2):
        if x[0] != y[0]:
            return False
        if x[0] == "fld" and x[2] != y[2]:
            return True
        if x[0] == "idx" and x[2] != y[2]:
            lo, hi = bounds(x[2] - y[2])
            return (lo is not None and lo > 0) or (hi is not None and hi < 0)
    return False


def commute(e1, e2):
    return e1[0] == "set" and e2[0] == "set" and apart(e1[1], e2[1])


def text(e):
    kind, obj, rest, ctx = e[:4]
    if kind == "call":
        return canon(rest, ctx)
    return canon((obj,) + rest, ctx)


def settle(es):
    """memory that is new: clearing it is not an effect"""
    out, seen = [], set()
    for e, t in es:
        if e[0] == "set":
            r, a = (), e[1]
            while a[0] in ("fld", "idx", "ld"):
                r = r + ((a[2],) if a[0] == "fld" else ())
                a = a[1]
            if r not in seen and e[2][1] in (NULL, Lin(0)):
                continue
            seen.add(r)
        out.append((e, t))
    return out


def order(es):
    """effects on one part, those that do not depend on each other's order sorted"""
    es = list(es)
    done = False
    while not done:
        done = True
        for k in range(len(es) - 1):
            if es[k][1] > es[k + 1][1] and commute(es[k][0], es[k + 1][0]):
                es[k], es[k + 1] = es[k + 1], es[k]
                done = False
    return tuple(t for e, t in es)


def facts(st):
    out = {}
    for l, (lo, hi, ne) in st.facts.iv.items():
        out[canon((l,), ())] = (lo, hi, tuple(sorted(ne)))
    for k, v in st.facts.b.items():
        out[canon(tuple(k), ())] = v
    return out


QUERIES = {"strlen", "strcmp", "strncmp", "strdup", "abs", "labs", "llabs", "gcd", "floor", "ceil", "round", "atoi", "atol", "__ctype_b_loc", "isdigit",
           "glp_get_num_cols", "glp_get_num_rows", "glp_mip_col_val", "glp_get_col_prim", "glp_get_status", "glp_mip_status", "glp_mip_obj_val",
           "glp_get_obj_val"}


def clash(a, b):
    """keys on which the two sets of facts exclude each other"""
    out = []
    for k, x in a.items():
        y = b.get(k)
        if y is None:
            continue
        if isinstance(x, bool) or isinstance(y, bool):
            if x != y:
                out.append(k)
            continue
        lo = max([v for v in (x[0], y[0]) if v is not None], default=None)
        hi = min([v for v in (x[1], y[1]) if v is not None], default=None)
        if lo is not None and hi is not None:
            if lo > hi or all(v in x[2] or v in y[2] for v in range(lo, min(hi, lo + 8) + 1)):
                out.append(k)
    return out


def fresh(a):
    while a[0] in ("fld", "idx", "ld"):
        a = a[1]
    return a[0] in ("new", "loc")


def summary(W, f):
    """{part: [(facts, effects)]}: what happens to every part, with the conditions that decide it"""
    L = []
    for st, rv in W.leaves(f):
        per = {}
        H = History(st)
        HIST.append(H)
        try:
            for n, e in enumerate(st.ev):
                kind, obj = e[0], e[1]
                rs = {resource(a) for a in obj if not fresh(a)} if kind == "call" else {resource(obj)} if not fresh(obj) else set()
                if kind == "call" and not obj and not e[2][0] in W.makers:
                    rs = {"calls"}
                if rs:
                    H.now = n if kind == "call" else len(st.ev)
                    t = text(e)
                    for r in rs:
                        per.setdefault(r, []).append((e, t))
            H.now = len(st.ev)
            d = {r: order(es) for r, es in per.items()}
            if rv is not None:
                d["returned"] = (canon((rv,), ()),)
            L.append((facts(st), d))
        finally:
            HIST.pop()
    out = {}
    for r in sorted({r for _, d in L for r in d}):
        rows = []
        for fc, d in L:
            x = (fc, d.get(r, ()))
            if x not in rows:
                rows.append(x)
        pairs = set()
        for i in range(len(rows)):
            for j in range(i):
                if rows[i][1] != rows[j][1]:
                    pairs.add(frozenset(clash(rows[i][0], rows[j][0])))
        keys = sorted({k for fc, _ in rows for k in fc})
        keep = set(keys)
        for k in keys:
            if all(not p or (p & keep) - {k} for p in pairs):
                keep.discard(k)
        res = []
        for fc, es in rows:
            x = ({k: v for k, v in fc.items() if k in keep}, es)
            if x not in res:
                res.append(x)
        out[r] = res
    return out


def split(t, sep=","):
    """at the separators that are not inside brackets"""
    out, d, cur = [], 0, ""
    for k, ch in enumerate(t):
        if ch in "<([{":
            d += 1
        elif ch in ")]}" or ch == ">" and t[k - 1:k] != "-":
            d -= 1
        if ch == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


CONST = re.compile(r"^[+-]?\d+$")
TERM = re.compile(r"^(\d+)\*(.*)$")


def linear(t):
    """a linear form, from its text: (terms, constant)"""
    parts, d, cur = [], 0, ""
    for k, ch in enumerate(t):
        if ch in "<([{":
            d += 1
        elif ch in ")]}" or ch == ">" and t[k - 1:k] != "-":
            d -= 1
        if d == 0 and ch in "+-" and k and t[k + 1:k + 2] != ">":
            parts.append(cur)
            cur = ch
        else:
            cur += ch
    parts.append(cur)
    s, c = {}, 0
    for p in parts:
        if CONST.match(p):
            c += int(p)
            continue
        n = -1 if p.startswith("-") else 1
        p = p.lstrip("+-")
        m = TERM.match(p)
        if m:
            n, p = n * int(m.group(1)), m.group(2)
        s[p] = s.get(p, 0) + n
    return s, c


_lin = {}


def least(fc):
    """linear forms that are at most / at least something: [(terms, lo, hi)]"""
    out = []
    for k, v in fc.items():
        if isinstance(v, bool) or (v[0] is None and v[1] is None):
            continue
        if k not in _lin:
            _lin[k] = linear(k)
        out.append((_lin[k][0], v[0], v[1]))
    return out


def empty(x, fc):
    """is the index in an empty range?  (i<count>)"""
    t = x[2:x.rindex(">")]
    if t not in _lin:
        _lin[t] = linear(t)
    s, c = _lin[t]
    if not s:
        return c <= 0
    neg = {k: -n for k, n in s.items()}
    for f, lo, hi in least(fc):
        if f == s and hi is not None and hi + c <= 0 or f == neg and lo is not None and -lo + c <= 0:
            return True
    return False


def indices(key):
    """the loop indices a condition mentions"""
    out, k = [], key.find("i<")
    while k >= 0:
        if k == 0 or not (key[k - 1].isalnum() or key[k - 1] == "_"):
            d = 0
            for j in range(k + 1, len(key)):
                if key[j] == "<":
                    d += 1
                elif key[j] == ">" and key[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        out.append(key[k:j + 1])
                        break
        k = key.find("i<", k + 1)
    return out


def both(fa, fb):
    out = dict(fb)
    for k, v in fa.items():
        w = out.get(k)
        if w is not None and not isinstance(v, bool) and not isinstance(w, bool):
            lo = max([x for x in (v[0], w[0]) if x is not None], default=None)
            hi = min([x for x in (v[1], w[1]) if x is not None], default=None)
            v = (lo, hi, tuple(sorted(set(v[2]) | set(w[2]))))
        out[k] = v
    return out


def differ(now, then):
    """[(part, facts, effects now, effects then)]: what can happen now and could not (under conditions that do not
    exclude each other)"""
    out = []
    for r in sorted(set(now) | set(then)):
        a, b = now.get(r, [({}, ())]), then.get(r, [({}, ())])
        one = not any(x[1] != y[1] and not clash(x[0], y[0]) for k, x in enumerate(b) for y in b[:k])
        two = not any(x[1] != y[1] and not clash(x[0], y[0]) for k, x in enumerate(a) for y in a[:k])
        for fa, ea in a:
            for fb, eb in b:
                if ea == eb or clash(fa, fb):
                    continue
                fc = both(fa, fb)
                if any(v is True and k.startswith("peq ") and k.endswith(" NULL") and any(k[4:-5] + d in x for x in list(ea) + list(eb) for d in ("->", "["))
                       for k, v in fc.items()):
                    continue         # what is NULL is not used
                if any(empty(i, fc) for x in list(ea) + list(eb) + list(fc) for i in indices(x)):
                    continue         # a loop that does nothing
                if not (one and two):
                    # the conditions do not tell the cases apart: one of them has to be the same
                    if any(ea == y and not clash(fa, x) for x, y in b) and any(eb == y and not clash(fb, x) for x, y in a):
                        continue
                if equal(ea, eb, fc):
                    continue
                out.append((r, fc, ea, eb))
        if not (one and two) and not any(x[0] == r for x in out):
            # the cases are not told apart, but what is asked has changed
            ka, kb = ({k for f, _ in x for k in f} for x in (a, b))
            for x in sorted(ka - kb):
                w = CALL.match(x)
                y = w and [y for y in sorted(kb - ka) if CALL.match(y) and CALL.match(y).group(1) == w.group(1)]
                if y:
                    out.append((r, {}, ("tests " + x,), ("tests " + y[0],)))
    return out


CALL = re.compile(r"(\w+)\(")


def equal(ea, eb, fc):
    """the same where two values are equal"""
    hit = False
    for k, v in fc.items():
        if isinstance(v, bool) or v[0] is None or v[0] != v[1]:
            continue
        if k not in _lin:
            _lin[k] = linear(k)
        s = sorted(_lin[k][0].items(), key=lambda x: x[1])
        if len(s) == 2 and s[0][1] == -1 and s[1][1] == 1 and v[0] == 0:
            hit = True
            ea, eb = ([x.replace(s[1][0], s[0][0]) for x in y] for y in (ea, eb))
    return hit and sorted(ea) == sorted(eb)
