"""Arrays and matrices are filled before they are read.

From every allocation of a matrix or a plain array each path is followed to the
first place its contents are looked at (or the matrix is handed on): before it,
the path must have passed something that fills it: a clearing call, a loop (nest)
that stores to every element it visits, or a function that does."""
from .term import Terms, loops, noreturn, contains, innermost, iv_of
from .dom import dominates
from .passes import limit
from collections import Counter
from .must import base_callee

WIDTH = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "float": 4, "i64": 8, "ptr": 8, "double": 8}
VAL = "pluto_matrix.val"
CLEAR = {"memset", "bzero", "memcpy", "memmove", "calloc", "strcpy", "sprintf", "strncpy", "snprintf"}


def parts(t):
    if t[0] == "add":
        return parts(t[1]) + parts(t[2])
    return [t]


class Fill:
    def __init__(self, prog, E):
        self.p, self.E = prog, E
        self.T, self.memo = {}, {}

    def terms(self, f):
        if f.name not in self.T:
            self.T[f.name] = Terms(f)
        return self.T[f.name]

    # ------------------------------------------------------------ names of the object
    def names(self, f, v):
        """values and terms that are the object"""
        T = self.terms(f)
        vals, work, terms = {v}, [v], {T.t(v)}
        while work:
            x = work.pop()
            for i in f.allinsts():
                if i.op == "phi" and any(isinstance(y, int) and f.insts[y].op == "getelementptr" and f.insts[y].ops[0] == i.id for y, b in i.d["inc"]):
                    continue                   # a pointer that walks through it
                if i.op == "phi" and i.id not in vals and any(y == x for y, b in i.d["inc"]):
                    vals.add(i.id)
                    work.append(i.id)
                    terms.add(T.t(i.id))
                elif i.op == "select" and i.id not in vals and x in i.ops[1:]:
                    vals.add(i.id)
                    work.append(i.id)
                    terms.add(T.t(i.id))
                elif i.op == "store" and i.ops[0] == x and not isinstance(i.ops[1], dict):
                    terms.add(("ld", T.t(i.ops[1])))
        return terms

    @staticmethod
    def row(t, N):
        """row index when t is a row of the matrix"""
        if t[0] == "ld" and t[1][0] == "idx" and t[1][1][0] == "ld" and t[1][1][1][0] == "fld" and t[1][1][1][2] == VAL and t[1][1][1][1] in N:
            return t[1][2]
        if t[0] == "ld" and t[1][0] == "ld" and t[1][1][0] == "fld" and t[1][1][2] == VAL and t[1][1][1] in N:
            return ("c", 0)
        return None

    def elem(self, a, N, matrix):
        """(row, column) when a is the address of an element"""
        if matrix:
            if a[0] == "idx":
                r = self.row(a[1], N)
                return (r, a[2]) if r is not None else None
            r = self.row(a, N)
            return (r, ("c", 0)) if r is not None else None
        while a[0] == "fld" and a not in N:
            a = a[1]
        if a[0] == "idx" and a[1] in N:
            return (None, a[2])
        if a in N:
            return (None, ("c", 0))
        return None

    def struct(self, f, N):
        T = self.terms(f)
        for i in f.allinsts():
            if i.op == "getelementptr":
                t = T.t(i.id)
                while t[0] == "fld":
                    if t[1] in N:
                        return True
                    t = t[1]
        return False

    def kept(self, f, N, matrix):
        """is it stored in an object that outlives the call?"""
        if not matrix and self.struct(f, N):
            return False
        return any(t[0] == "ld" and t[1][0] == "fld" for t in N)

    # ------------------------------------------------------------ filling
    def fillers(self, f, N, matrix, one, size=None):
        """(instructions, loop headers) that fill the object"""
        T = self.terms(f)
        ins, heads = set(), set()
        stores, fixed, counted = {}, {}, False
        columns = {}

        def put(i, e):
            nonlocal counted
            r = e[0] if matrix else e[1]
            if r[0] != "c" and not self.has_iv(f, r) and self.counter(f, i, r):
                # a running counter: what lies below it has been stored
                counted = True
            if not matrix and r[0] == "c" or matrix and e[0][0] == "c" and e[1][0] == "c":
                fixed.setdefault(i.id, e)
            for l in loops(f).values():
                if i.bb.id in l.blocks and any(contains(e[1], ("iv", T.chain, v)) for v in l.ivs):
                    if matrix and not (one or any(contains(e[0], ("iv", T.chain, v)) for m in loops(f).values() if m is not l for v in m.ivs)
                                       or e[0][0] == "v"):
                        continue
                    if not self.whole(f, l, e[1]):
                        continue
                    columns.setdefault(l.header.id, set()).add(e)
                    stores.setdefault(l.header.id, []).append(i)

        for i in f.allinsts():
            if i.op == "store" and not isinstance(i.ops[1], dict):
                a = T.t(i.ops[1])
                if matrix and a[0] == "fld" and a[2] == "pluto_matrix.nrows" and a[1] in N and T.t(i.ops[0]) == ("c", 0):
                    ins.add(i.id)
                    continue
                e = self.elem(a, N, matrix)
                if e is not None and not matrix and e[1] == ("c", 0) and i.ops[0] == "c:0" and self.text(f, i):
                    ins.add(i.id)              # an empty string
                if e is None and not matrix and self.walks(f, i.ops[1], N):
                    counted = True             # a pointer that walks through the array
                if e is not None and not contains(T.t(i.ops[0]), ("ld", a)):
                    put(i, e)
            elif i.op == "call":
                c = base_callee(i)
                for k, a in enumerate(i.args):
                    if isinstance(a, dict):
                        continue
                    t = T.t(a)
                    if t not in N:
                        e = self.elem(t, N, matrix)
                        g = self.p.callee(i)
                        if e is not None and e[1] != ("c", 0) and ("scanf" in c or c in ("memcpy", "memmove") and k == 0 or g is not None and not g.decl and g.blocks and self.sets(g, k)):
                            put(i, e)
                            continue
                    if c in ("bzero", "memset") and k == 0 and self.clears_less(f, i, N, matrix, size):
                        continue
                    if c in CLEAR and k == 0 or "scanf" in c:
                        if not matrix and self.elem(t, N, False) is not None:
                            ins.add(i.id)
                        elif matrix and (self.row(t, N) is not None or self.elem(t, N, True) is not None):
                            self.mark(f, i, ins, heads)
                        continue
                    g = self.p.callee(i)
                    if g is None or g.decl or not g.blocks:
                        if not matrix and (g is None or g.decl) and t in N and c not in ("free", "realloc"):
                            ins.add(i.id)
                        continue
                    if t in N and self.fills(g, k, matrix, one):
                        ins.add(i.id)
                    elif matrix and self.row(t, N) is not None and self.fills(g, k, False, False):
                        self.mark(f, i, ins, heads)
        every = {e for es in columns.values() for e in es if not (matrix and not one and self.diagonal(f, e))} | set(fixed.values())
        for h, ss in stores.items():
            l = loops(f)[h]
            if len(every) == 1 and self.short(f, N, every, matrix, one, size):
                continue
            if self.every(f, l, {i.bb.id for i in ss}):
                heads.add(h)
                self.outer(f, l, heads)
        return ins, heads, fixed, counted

    # ------------------------------------------------------------ fresh rows and columns
    def zeroed(self, g, k, what, depth=0):
        """does every path through the function clear a whole row (column) of the matrix or system it is given as parameter k?"""
        key = ("z", g.name, k, what)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        T = self.terms(g)
        o = ("p", k)
        stop, rows = set(), {}
        for i in g.allinsts():
            if i.op == "load" and not isinstance(i.ops[0], dict):
                t = T.t(i.id)
                if t[0] == "ld" and t[1][0] == "idx" and t[1][1][0] == "ld" and t[1][1][1][0] == "fld" and t[1][1][1][1] == o \
                        and t[1][1][1][2].endswith(".val"):
                    rows[t] = t[1][1][1][2].split(".")[0]
        for i in g.allinsts():
            if i.op == "store" and not isinstance(i.ops[1], dict) and i.ops[0] == "c:0":
                t = T.t(i.ops[1])
                if what == "row" and self.walks(g, i.ops[1], rows):
                    stop.add(innermost(g, i.bb).header.id)
                    continue
                if t[0] != "idx" or t[1] not in rows:
                    continue
                r = t[1][1][2]
                along, across = (t[2], r) if what == "row" else (r, t[2])
                l = innermost(g, i.bb)
                if l is None or not self.has_iv(g, along) and not along[0] == "v" or self.has_iv(g, across):
                    continue
                if along[0] == "iv":
                    l = iv_of(g, along[2])
                    n = ("ld", ("fld", o, "%s.%s" % (rows[t[1]], "ncols" if what == "row" else "nrows")))
                    if l.ivs[along[2]][1] == 1 and not self.spans(g, l, along[2], n):
                        continue
                if self.every(g, l, {i.bb.id}):
                    stop.add(l.header.id)
            elif i.op == "call":
                h = self.p.callee(i)
                if base_callee(i) in ("memset", "bzero") and what == "row" and not isinstance(i.args[0], dict):
                    t = T.t(i.args[0])
                    if t in rows:
                        s = T.t(i.args[1 if base_callee(i) == "bzero" else 2])
                        if s[0] == "mul" and ("c", 8) in s[1:] and ("ld", ("fld", o, rows[t] + ".ncols")) in s[1:]:
                            stop.add(i.bb.id)
                elif h is not None and not h.decl and h.blocks and depth < 3:
                    for j, a in enumerate(i.args):
                        if isinstance(a, dict):
                            continue
                        t = T.t(a)
                        if t == o and self.zeroed(h, j, what, depth + 1):
                            stop.add(i.bb.id)
                        elif what == "row" and t in rows and ("ld", ("fld", o, rows[t] + ".ncols")) in \
                                [T.t(x) for x in i.args if not isinstance(x, dict)] and self.fills(h, j, False, False):
                            stop.add(i.bb.id)
        seen, work = set(), [g.blocks[0] if isinstance(g.blocks, list) else next(iter(g.blocks.values()))]
        ok = True
        while work:
            b = work.pop()
            if b.id in seen or b.id in stop or noreturn(b):
                continue
            seen.add(b.id)
            if b.insts[-1].op == "ret":
                ok = False
            work += b.succ
        self.memo[key] = ok
        return ok

    def spans(self, f, l, v, n):
        """does the loop run over 0 .. n - 1?"""
        T = self.terms(f)
        init, step = l.ivs[v]
        a = T.t(init)
        if step == 1:
            return a == ("c", 0) and any(t == n and c >= 0 for t, c in limit(T, f, l, v))
        return True

    def size(self, f, i, matrix):
        """(rows, columns) or (None, elements) that were allocated"""
        T = self.terms(f)
        if i.op == "call" and i.callee not in ("malloc", "pluto_matrix_alloc") and self.p.cname(i) != "pluto_matrix_alloc":
            return None
        if i.op == "alloca":
            return None, T.t(i.ops[0])
        if i.op != "call":
            return None
        if matrix:
            return T.t(i.args[0]), T.t(i.args[1])
        t = T.t(i.args[0])
        if t[0] == "mul":
            n = [x for x in t[1:] if x[0] != "c"]
            if len(n) == 1:
                return None, n[0]
        return None

    def clears_less(self, f, i, N, matrix, size):
        """is the number of bytes cleared provably smaller than the array?"""
        if size is None:
            return False
        T = self.terms(f)
        s, c = T.t(i.args[1 if base_callee(i) == "bzero" else 2]), 1
        if s[0] == "mul" and any(x[0] == "c" for x in s[1:]):
            c = next(x[1] for x in s[1:] if x[0] == "c")
            s = next(x for x in s[1:] if x[0] != "c") if any(x[0] != "c" for x in s[1:]) else s
        w = 8
        if not matrix:
            w = max([WIDTH.get(x.d["src"], 1) for x in f.allinsts() if x.op == "getelementptr" and len(x.d["path"]) == 1
                     and not isinstance(x.ops[0], dict) and T.t(x.ops[0]) in N] or [1])
        if s[0] in ("sdiv", "udiv", "lshr", "ashr") and len(s) == 3 and s[2][0] == "c" and s[2][1] > (1 if "div" in s[0] else 0) and c <= w:
            s, c = s[1], 0
        have, want = Counter(parts(s)), Counter(parts(size[1]))
        if have == want:
            return c < w
        return not have - want and c <= w and not any(x[0] == "c" and x[1] < 0 for x in want)

    def short(self, f, N, every, matrix, one, size):
        """do the loops that fill it provably leave the last or first elements out?"""
        T = self.terms(f)
        (e,) = every
        for t, n, own in ((e[1], size and size[1], ".ncols"), (e[0] if matrix and not one else None, size and size[0], ".nrows")):
            if t is None or t[0] != "iv":
                continue
            l = iv_of(f, t[2])
            init, step = l.ivs[t[2]]
            if step != 1:
                continue
            a = T.t(init)
            if a[0] == "c" and a[1] >= 1:
                return True
            if n is None and not matrix:
                continue
            n = n if n is not None else ("none",)
            for lim, c in limit(T, f, l, t[2]):
                have, want = Counter(parts(lim)), Counter(parts(n))
                hc = c + sum(x[1] * k for x, k in have.items() if x[0] == "c")
                wc = sum(x[1] * k for x, k in want.items() if x[0] == "c")
                have = Counter({x: k for x, k in have.items() if x[0] != "c"})
                want = Counter({x: k for x, k in want.items() if x[0] != "c"})
                if not have - want and hc <= wc and (want - have or hc < wc):
                    return True
                if have and want and all(x[0] == "p" for x in have) and all(x[0] == "ld" for x in want):
                    return True                # a position, where the extent is needed
                if matrix and hc < 0 and len(have) == 1 and next(iter(have))[0] == "ld" and next(iter(have))[1][0] == "fld" and \
                        next(iter(have))[1][1] in N and next(iter(have))[1][2].endswith(own):
                    return True
        return False

    def diagonal(self, f, e):
        """row and column move together: one element per row"""
        T = self.terms(f)
        a, b = ({v for l in loops(f).values() for v in l.ivs if contains(t, ("iv", T.chain, v))} for t in e)
        return bool(a) and a == b

    def counter(self, f, i, r):
        """is the index advanced whenever the element is stored (and only then)?"""
        if r[0] == "add" and r[2][0] == "c":
            r = r[1]
        if r[0] == "ld":
            T = self.terms(f)
            return any(x.op == "store" and not isinstance(x.ops[1], dict) and T.t(x.ops[1]) == r[1] for x in f.allinsts())
        if r[0] != "v":
            return False
        home = i.bb
        l = innermost(f, i.bb)
        phi = f.insts[r[2]]
        while l is not None and phi.bb.id not in l.blocks:       # loops over the columns of the row
            home = l.header
            l = next((m for m in sorted(loops(f).values(), key=lambda m: len(m.blocks)) if l.header.id in m.blocks and m is not l), None)
        for x in f.allinsts():
            if x.op == "add" and r[2] in [self.strip(f, o) for o in x.ops] and "c:1" in x.ops and (dominates(f, home, x.bb) or dominates(f, x.bb, i.bb)):
                return True
        return phi.op not in ("phi",)

    def walks(self, f, v, N):
        T = self.terms(f)
        if not isinstance(v, int) or f.insts[v].op != "phi":
            return False
        l = loops(f).get(f.insts[v].bb.id)
        if l is None:
            return False
        into = [T.t(x) for x, b in f.insts[v].d["inc"] if b not in l.blocks]
        return bool(into) and all(t in N for t in into)

    def text(self, f, i):
        """is the stored-to buffer used as a string?"""
        return any(x.op == "call" and (x.callee or "").startswith(("str", "sn", "sp")) and i.ops[1] in [a for a in x.args if not isinstance(a, dict)]
                   for x in f.allinsts())

    @staticmethod
    def strip(f, v):
        while isinstance(v, int) and f.insts[v].op in ("sext", "zext", "trunc"):
            v = f.insts[v].ops[0]
        return v

    def whole(self, f, l, t):
        """an index i * n + j: does j run up to n?"""
        T = self.terms(f)
        mul = next((x for x in parts(t) if x[0] == "mul" and self.has_iv(f, x)), None)
        j = next((x for x in parts(t) if x[0] == "iv"), None)
        if mul is None or j is None or iv_of(f, j[2]) is not l:
            return True
        n = [x for x in mul[1:] if not self.has_iv(f, x)]
        for b in [f.blocks[k] for k in l.blocks]:
            for x in b.insts:
                if x.op == "icmp" and b is l.header:
                    a, c = T.t(x.ops[0]), T.t(x.ops[1])
                    lim = c if contains(a, j) else a if contains(c, j) else None
                    if lim is not None and n and lim not in n and lim[0] != "v":
                        return False
        return True

    def has_iv(self, f, t):
        T = self.terms(f)
        return any(contains(t, ("iv", T.chain, v)) for l in loops(f).values() for v in l.ivs)

    def mark(self, f, i, ins, heads):
        l = innermost(f, i.bb)
        if l is not None and self.every(f, l, {i.bb.id}):
            heads.add(l.header.id)
            self.outer(f, l, heads)
        ins.add(i.id)

    def outer(self, f, l, heads):
        """loops around it every iteration of which runs it"""
        for m in loops(f).values():
            if m is not l and l.header.id in m.blocks and m.header.id not in heads:
                if self.every(f, m, {l.header.id}):
                    heads.add(m.header.id)
                    self.outer(f, m, heads)

    def every(self, f, l, blocks):
        """does every iteration pass one of the blocks?"""
        seen, work = set(), [l.header]
        first = True
        while work:
            b = work.pop()
            if b.id in seen or b.id in blocks or noreturn(b):
                continue
            seen.add(b.id)
            for s in b.succ:
                if s.id == l.header.id:
                    return False
                if s.id in l.blocks:
                    work.append(s)
        return True

    def fills(self, g, k, matrix, one):
        key = (g.name, k, matrix, one)
        if key not in self.memo:
            self.memo[key] = False
            N = {("p", k)}
            ins, heads, fixed, counted = self.fillers(g, N, matrix, one)
            if counted:
                self.memo[key] = True
                return True
            ok = True
            seen, work = set(), [g.blocks[0]]
            while work:
                b = work.pop()
                if b.id in seen or noreturn(b) or b.id in heads or any(i.id in ins for i in b.insts):
                    continue
                seen.add(b.id)
                if b.insts and b.insts[-1].op == "ret":
                    ok = False
                    break
                work += b.succ
            self.memo[key] = ok and (bool(ins) or bool(heads))
        return self.memo[key]

    def sets(self, g, k):
        """does the function store to *parameter k on every path?"""
        if not hasattr(self, "A"):
            from .assigned import Assigned
            self.A = Assigned(self.p, self)
        return self.A.sets(g, k)

    def touches(self, g, fld):
        """does the function (or one it calls) load the field?"""
        key = ("t", fld)
        if key not in self.memo:
            direct = {h.name for h in self.p.repo_functions for i in h.allinsts()
                      if i.op == "load" and isinstance(i.ops[0], int) and h.insts[i.ops[0]].op == "getelementptr"
                      and h.insts[i.ops[0]].d["path"] and h.insts[i.ops[0]].d["path"][-1].get("f") == fld}
            calls = getattr(self, "calls", None)
            if calls is None:
                calls = self.calls = {}
                for h in self.p.repo_functions:
                    for i in h.calls():
                        k = self.p.callee(i)
                        if k is not None:
                            calls.setdefault(k.name, set()).add(h.name)
            work = list(direct)
            while work:
                n = work.pop()
                for c in calls.get(n, ()):
                    if c not in direct:
                        direct.add(c)
                        work.append(c)
            self.memo[key] = direct
        return g.name in self.memo[key]

    def reads(self, g, k, depth=0):
        """does the function look at the elements behind parameter k (before filling them)?"""
        key = ("r", g.name, k)
        if key not in self.memo:
            self.memo[key] = False
            T = self.terms(g)
            r = False
            for i in g.allinsts():
                if i.op == "load":
                    a = T.t(i.ops[0]) if not isinstance(i.ops[0], dict) else ("x",)
                    if self.elem(a, {("p", k)}, False) is not None or self.elem(a, {("p", k)}, True) is not None and a[0] == "idx":
                        r = True
                elif i.op == "call" and depth < 3:
                    h = self.p.callee(i)
                    if h is not None and not h.decl and h.blocks:
                        for j, a in enumerate(i.args):
                            if not isinstance(a, dict) and T.t(a) == ("p", k) and self.reads(h, j, depth + 1):
                                r = True
            self.memo[key] = r
        return self.memo[key]

    # ------------------------------------------------------------ one allocation
    def later(self, f, N, matrix, one, x, depth):
        """do all callers fill what the function hands them unfilled?"""
        if depth >= 2:
            return False
        T = self.terms(f)
        sites = [(g, c) for g in self.p.repo_functions for c in g.calls() if self.p.callee(c) is f]
        if not sites:
            return False
        for g, c in sites:
            U = self.terms(g)
            M = set()
            if x.ops and not isinstance(x.ops[0], dict):
                r = T.t(x.ops[0])
                if r in N:
                    M |= self.names(g, c.id)
            else:
                r = None
            for t in N:
                if t[0] == "ld" and t[1][0] == "fld":
                    o, fl = t[1][1], t[1][2]
                    if o[0] == "p" and o[1] < len(c.args) and not isinstance(c.args[o[1]], dict):
                        M.add(("ld", ("fld", U.t(c.args[o[1]]), fl)))
                    elif o == r:
                        M |= {("ld", ("fld", n, fl)) for n in self.names(g, c.id)}
            ins, heads, fixed, counted = self.fillers(g, M, matrix, one)
            if not M or not (ins or heads or counted):
                return False
            if self.site(g, c, matrix, one, M, depth + 1) is not None:
                return False
        return True

    def site(self, f, i, matrix, one=False, N=None, depth=0):
        """the instruction that looks at the contents too early, or None"""
        T = self.terms(f)
        N = self.names(f, i.id) if N is None else N
        ins, heads, fixed, counted = self.fillers(f, N, matrix, one, self.size(f, i, matrix))
        if counted:
            return None
        if not matrix and i.args and T.t(i.args[0])[0] == "c":
            # an array of fixed size that is set element by element
            ins = ins | set(fixed)
        places = [t[1] for t in N if t[0] == "ld" and t[1][0] == "fld"] if matrix or not self.struct(f, N) else []
        seen = set()
        work = [(i.bb, i.idx + 1, frozenset())]
        while work:
            b, k, have = work.pop()
            if (b.id, k, have) in seen or noreturn(b):
                continue
            seen.add((b.id, k, have))
            if k == 0 and b.id in heads:
                continue
            stop = False
            for x in b.insts[k:]:
                if x.id in ins or x is i:
                    stop = True
                    break
                if x.op == "load" and not isinstance(x.ops[0], dict):
                    a = T.t(x.ops[0])
                    e = self.elem(a, N, matrix)
                    if e is not None and e not in have and (not matrix or a[0] == "idx"):
                        return x
                elif x.id in fixed:
                    have |= {fixed[x.id]}
                elif x.op == "call":
                    g = self.p.callee(x)
                    for j, a in enumerate(x.args):
                        if isinstance(a, dict):
                            continue
                        t = T.t(a)
                        if t in N and base_callee(x) in ("realloc", "free"):
                            stop = True
                        elif any(t == pl[1] and g is not None and self.touches(g, pl[2]) for pl in places):
                            return x
                        elif (t in N or matrix and self.row(t, N) is not None) and g is not None and not g.decl and g.blocks and self.reads(g, j):
                            return x
                    if stop:
                        break
                elif x.op == "ret" and x.ops and not isinstance(x.ops[0], dict) and T.t(x.ops[0]) in N:
                    if (matrix or not self.struct(f, N)) and not self.later(f, N, matrix, one, x, depth):
                        return x
                elif x.op == "ret" and self.kept(f, N, matrix) and not self.later(f, N, matrix, one, x, depth):
                    return x
            if not stop:
                work += [(s, 0, have) for s in b.succ]
        return None
