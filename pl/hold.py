"""Objects held in a function's own arrays, slots and multi-precision numbers.

An owned object stored in an element of a local array, delivered into a local
through an out-parameter, or a number initialised in a local is followed
forward along every path: before the array goes (or the function returns) the
object must have been released or handed on."""
from .term import Terms, loops, noreturn, atom, NULL, contains, subterm, show
from .places import root, generalise, unify, has_any, ANY
from .expr import CASTS
from .own import OWNED, RET_OWNED


# functions that return an array of objects the caller releases one by one (collected in C++ containers)
ELEMENTS = {"get_unique_accesses_in_stmts"}


def flat(t):
    for x in t:
        if isinstance(x, tuple):
            yield from flat(x)
        else:
            yield x


class Hold:
    def __init__(self, prog, E, own, places, ow):
        self.p, self.E, self.own, self.pl, self.ow = prog, E, own, places, ow
        self.held = 0
        self.reports = []
        self.gives = {}
        self.retelems = {}
        self._giveout()
        for f in prog.repo_functions:
            if f.blocks:
                self.function(f)
                self.iterations(f)

    def iterations(self, f):
        """an element released at several places of an iteration is released on each of its paths"""
        T = self.pl.terms(f)
        for l in loops(f).values():
            rel = {}
            for b in l.blocks:
                for i in f.blocks[b].insts:
                    if i.op == "call" and i.callee and not i.callee.startswith("llvm"):
                        for k, a in enumerate(i.args):
                            if isinstance(a, int) and self.own.argeff(i, k) == "consume":
                                t = T.t(a)
                                if t[0] == "ld" and not any(x == "fld" for x in flat(t)):
                                    rel.setdefault(t, []).append(i)
            for t, sites in rel.items():
                rb = {i.bb.id for i in sites}
                defs = [i for b in sorted(l.blocks) for i in f.blocks[b].insts if i.op == "load" and T.t(i.id) == t]
                if len(rb) < 2 or not defs:
                    continue
                self.held += 1
                seen, work = set(), [defs[0].bb]
                while work:
                    b = work.pop()
                    if b.id in seen or b.id in rb or noreturn(b):
                        continue
                    seen.add(b.id)
                    for s in b.succ:
                        if s.id == l.header.id or s.id not in l.blocks:
                            self.reports.append((f, defs[0], t, "an iteration ends at line %d without releasing it, others do" % b.insts[-1].line()))
                            work = []
                            break
                        work.append(s)

    # ---------------------------------------------------------------- what is owned
    def fresh(self, f, v, n=0):
        """the call that made the value, if it is an object nobody else owns"""
        while isinstance(v, int) and n < 8:
            i = f.insts[v]
            if i.op in CASTS:
                v = i.ops[0]
                n += 1
                continue
            if i.op == "call":
                c = i.callee or "?"
                if c in ("realloc", "reallocarray"):
                    return None
                if c in OWNED and OWNED[c] in ("heap",):
                    return i
                g = self.p.callee(i)
                if g is not None and not g.decl:
                    s = self.own.sum.get(g.name)
                    if g.short in RET_OWNED or (s is not None and s.ret == "heap" and not s.retalias):
                        return i
            return None
        return None

    def _giveout(self):
        """(function, k): an owned object is stored through parameter k"""
        for f in self.p.repo_functions:
            if f.short in ELEMENTS and f.blocks and f.sig and f.sig[0].replace(" ", "").endswith("**"):
                self.retelems.setdefault(f.name, set()).add(1)
        for rnd in range(3):
            n = len(self.gives)
            for f in self.p.repo_functions:
                if not f.blocks:
                    continue
                T = self.pl.terms(f)
                for i in f.allinsts():
                    if i.op == "store" and not isinstance(i.ops[0], dict) and not isinstance(i.ops[1], dict):
                        A = T.t(i.ops[1])
                        r = root(A)
                        if r[0] == "p" and self.plainpath(A) and self.depth(A) <= 1 and self.fresh(f, i.ops[0]):
                            self.gives.setdefault((f.name, r[1]), self.depth(A))
                        if r[0] == "new" and A != r and self.plainpath(A) and self.depth(A) <= 2 and self.fresh(f, i.ops[0]) and self.returned(f, T, r):
                            self.retelems.setdefault(f.name, set()).add(self.depth(A))
                    elif i.op == "call" and i.callee:
                        for k, a in enumerate(i.args):
                            if not isinstance(a, dict) and (i.callee, k) in self.gives:
                                A = T.t(a)
                                if A[0] == "p":
                                    self.gives.setdefault((f.name, A[1]), self.gives[(i.callee, k)])
            if len(self.gives) == n:
                break

    # ---------------------------------------------------------------- one function
    def function(self, f):
        T = self.pl.terms(f)
        for i in f.allinsts():
            if i.op == "store" and i.d.get("vty", "ptr") == "ptr" and not isinstance(i.ops[0], dict) and not isinstance(i.ops[1], dict):
                if not self.fresh(f, i.ops[0]):
                    continue
                A = T.t(i.ops[1])
                r = root(A)
                if r[0] not in ("new", "loc") or not self.plainpath(A):
                    continue
                if r[0] == "loc" and A == r:
                    continue
                if self.ld0(A) and r[0] == "loc":
                    continue
                self.follow(f, T, i, A, r)
            elif i.op == "call" and i.callee:
                c = i.callee
                if c in ("__gmpz_init", "__gmpz_init_set", "__gmpz_init_set_si") and not isinstance(i.args[0], dict):
                    r = T.t(i.args[0])
                    if root(r)[0] == "loc" and "fld" not in str(r):
                        self.follow(f, T, i, r, r, "__gmpz_clear")
                    continue
                for k, a in enumerate(i.args):
                    if isinstance(a, dict) or (c, k) not in self.gives:
                        continue
                    A = T.t(a)
                    n = self.gives[(c, k)]
                    if A[0] == "loc" and n == 0:
                        self.follow(f, T, i, A, A)
                    elif A[0] in ("loc", "new") and n == 1:
                        self.follow(f, T, i, ("idx", A, ANY), A)
                for n in self.retelems.get(c, ()):
                    R = T.t(i.id)
                    if n == 1:
                        for j in f.allinsts():
                            if j.op == "store" and j.ops[0] == i.id and not isinstance(j.ops[1], dict):
                                A = T.t(j.ops[1])
                                r = root(A)
                                if r[0] in ("new", "loc") and A != r and self.plainpath(A) and not self.ld0(A):
                                    self.follow(f, T, j, ("idx", ("ld", self.anyidx(A)), ANY), r)
                    if R[0] == "call":
                        self.follow(f, T, i, ("idx", R, ANY) if n == 1 else ("idx", ("ld", ("idx", R, ANY)), ANY), R)

    @staticmethod
    def depth(A):
        n = 0
        while isinstance(A, tuple) and A[0] in ("idx", "ld", "fld"):
            n += A[0] == "idx"
            A = A[1]
        return n

    def returned(self, f, T, R):
        sub = self.names(f, T, R)
        if sub is None:
            return False
        return any(i.op == "ret" and i.ops and isinstance(i.ops[0], int) and i.ops[0] in sub for i in f.allinsts())

    @staticmethod
    def plainpath(A):
        t = A
        while isinstance(t, tuple) and t[0] in ("fld", "idx", "ld"):
            if t[0] == "fld":
                return False
            t = t[1]
        return True

    @staticmethod
    def ld0(A):
        """the place lies behind a pointer kept in a slot"""
        t = A
        while isinstance(t, tuple) and t[0] in ("fld", "idx", "ld"):
            if t[0] == "ld" and t[1][0] == "loc":
                return True
            t = t[1]
        return False

    def names(self, f, T, R):
        """every value that is the array R (grown by realloc, merged at joins), or None when others may be"""
        if R[0] == "call":
            w0 = R[3]
        elif R[0] == "new" and R[1] == ():
            w0 = R[2]
        else:
            return {}
        w, work = {w0}, [w0]
        users = {}
        for i in f.allinsts():
            ops = [x for x, b in i.d["inc"]] if i.op == "phi" else i.ops[1:] if i.op == "select" else i.ops if i.op in CASTS else \
                i.args[:1] if i.op == "call" and i.callee in ("realloc", "reallocarray") else ()
            for x in ops:
                if isinstance(x, int):
                    users.setdefault(x, []).append(i)
        while work:
            v = work.pop()
            i = f.insts[v]
            src = []
            if i.op == "phi":
                src = [x for x, b in i.d["inc"]]
            elif i.op == "select":
                src = i.ops[1:]
            elif i.op in CASTS:
                src = i.ops
            elif i.op == "call" and i.callee in ("realloc", "reallocarray"):
                src = i.args[:1]
            elif i.op == "call" and (v == w0 or i.callee in ("malloc", "calloc", "_Znwm", "_Znam")):
                src = []
            else:
                return None
            for x in src:
                if isinstance(x, int):
                    if x not in w:
                        w.add(x)
                        work.append(x)
                elif x not in ("null", "undef", "poison"):
                    return None
            for u in users.get(v, ()):
                if u.id not in w:
                    w.add(u.id)
                    work.append(u.id)
        return {v: R for v in w}

    def follow(self, f, T, at, A, R, clear=None):
        if not clear:
            sub = self.names(f, T, R)
            if sub is None:
                return
            if len(sub) > 1:
                T = Terms(f, sub=sub)
                A = T.t(at.ops[1]) if at.op == "store" and A[0:1] == ("idx",) and A[2] != ANY else A
        self.held += 1
        P = A if clear else generalise(A, lambda t: isinstance(t, tuple) and len(t) > 1 and t[0] in ("iv", "v", "add", "sub", "c", "mul") and t != R)
        if A[0] == "idx" and not clear:
            P = self.anyidx(A)
        L = loops(f)
        inside = {h for h, l in L.items() if at.bb.id in l.blocks}
        # loops elsewhere that release or hand on the elements
        clearing = {h for h, l in L.items() if h not in inside and
                    any(self.settles(f, T, i, P, R, clear) is True for b in l.blocks for i in f.blocks[b].insts)}
        work = [(at.bb.id, at.bb.insts.index(at) + 1, self.pl.facts0(f, T, at))]
        seen = set()
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            if len(seen) > 4000:
                return
            bid, idx, facts = st
            b = f.blocks[bid]
            if noreturn(b):
                continue
            dead = False
            for i in b.insts[idx:]:
                if i is at and clear is None and A == R:
                    dead = True
                    break
                r = self.settles(f, T, i, P, R, clear)
                if r is True:
                    dead = True
                    break
                if r:
                    self.reports.append((f, at, A, "%s at line %d" % (r, i.line())))
                    return
                if i.op == "ret":
                    self.reports.append((f, at, A, "the function returns at line %d" % i.line()))
                    return
                if i.op == "store":
                    a = T.t(i.ops[1])
                    facts = frozenset(x for x in facts if not contains(x[0], ("ld", a)))
            if dead:
                continue
            t = b.insts[-1]
            for k, s in enumerate(t.succ if t.op in ("br", "switch") else [x.id for x in b.succ]):
                nf = facts
                if t.op == "br" and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
                    bad = False
                    for key, truth in atom(T, f, t.d["cond"], k == 0):
                        if (key, not truth) in nf:
                            bad = True
                        if key[0] == "eq" and key[2] in (NULL, ("c", 0)) and truth and (unify(key[1], ("ld", P)) or key[1] == R and not clear):
                            bad = True
                        if not contains(key, ("iv",)) and len(nf) < 6 and self.pl.twice(f, T, key):
                            nf = nf | {(key, truth)}
                    if bad:
                        continue
                if s in clearing:
                    continue
                if s in L and b.id in L[s].blocks:
                    pr = self.pl.varying(f, L[s])
                    nf = frozenset(x for x in nf if generalise(x[0], pr) == x[0])
                work.append((s, 0, nf))

    @staticmethod
    def anyidx(t):
        if not isinstance(t, tuple):
            return t
        if t[0] == "idx":
            return ("idx", Hold.anyidx(t[1]), ANY)
        if t[0] in ("ld", "fld"):
            return (t[0], Hold.anyidx(t[1])) + t[2:]
        return t

    # ---------------------------------------------------------------- effects
    def settles(self, f, T, i, P, R, clear):
        if clear:
            return i.op == "call" and i.callee == clear and not isinstance(i.args[0], dict) and T.t(i.args[0]) == R
        if i.op == "load":
            if self.same(T.t(i.ops[0]), P) and self.ow.handed_on(f, i):
                return True
            return False
        if i.op == "store":
            if not isinstance(i.ops[0], dict) and T.t(i.ops[0]) == R and root(T.t(i.ops[1])) != R:
                return True
            return False
        if i.op == "ret":
            return bool(i.ops) and not isinstance(i.ops[0], dict) and contains(T.t(i.ops[0]), R)
        if i.op != "call":
            return False
        c = i.callee or "?"
        if c.startswith("llvm."):
            return False
        for k, a in enumerate(i.args):
            if isinstance(a, dict):
                continue
            t = T.t(a)
            if t != R and not self.same(t, P) and not (contains(t, R) and self.behind(t, P)):
                continue
            e = self.own.argeff(i, k)
            if c == "free" and (t == R and P != R or P[0] == "idx" and unify(t, P[1])):
                return "the array is released"
            if c in ("realloc", "reallocarray"):
                return False
            if e in ("consume", "maybe", "escape", "keepret"):
                return True
            g = self.p.callee(i)
            if g is None:
                return True
            if not g.decl:
                ef = self.E.eff.get(g.name)
                if ef is None:
                    return True
                if any(p[0] == ("a", k) and len(p) > 1 for p in ef.frees):
                    return True
                if self.passes_on(g, k):
                    return True
        return False

    @staticmethod
    def same(t, P):
        return unify(t, P)

    @staticmethod
    def behind(t, P):
        s = P
        while isinstance(s, tuple) and s[0] in ("idx", "ld", "fld"):
            if unify(t, s):
                return True
            s = s[1]
        return False

    def passes_on(self, g, k, seen=()):
        """does the function store or return what it finds behind parameter k?"""
        if not g.blocks or g.name in seen:
            return False
        T = self.pl.terms(g)
        for i in g.allinsts():
            if i.op == "load" and i.ty == "ptr":
                a = T.t(i.ops[0])
                if root(a) == ("p", k) and self.plainpath(a) and self.ow.handed_on(g, i):
                    return True
            elif i.op == "store" and not isinstance(i.ops[0], dict) and T.t(i.ops[0]) == ("p", k):
                return True
            elif i.op == "call":
                h = self.p.callee(i)
                for j, a in enumerate(i.args):
                    if not isinstance(a, dict) and T.t(a) == ("p", k) and h is not None and not h.decl:
                        if self.passes_on(h, j, seen + (g.name,)):
                            return True
        return False
