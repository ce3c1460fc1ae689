"""Places that keep a pointer after the object it points to was released.

For every load of a pointer from a heap place (a field of an object, or an
element of an array in a field) whose value is then released, the place is
followed along every path: until it is overwritten, or the object it lies in is
released, it must not be read again, and it must not survive the function.
What a function leaves dangling in its parameter is followed in its callers."""
from .term import Terms, loops, innermost, noreturn, subterm, contains, fields, atom, show, NULL, iv_of
from .expr import CASTS
from .dom import dominating_conditions, control_deps

ANY = ("any",)


def spine(a):
    """the pointer values the place lies behind (nearest first)"""
    out = []
    t = a
    while isinstance(t, tuple) and t[0] in ("fld", "idx", "ld"):
        t = t[1]
        if t[0] not in ("fld", "idx"):
            out.append(t)
    return out


def root(a):
    t = a
    while isinstance(t, tuple) and t[0] in ("fld", "idx", "ld"):
        t = t[1]
    return t


def lastfield(a):
    t = a
    while isinstance(t, tuple) and t[0] in ("idx", "ld", "fld"):
        if t[0] == "fld":
            return t[2]
        t = t[1]
    return None


def allstores(e):
    """pointer stores of a function into its arguments and into objects it creates"""
    if e is None:
        return
    yield from e.stores
    for d, ss in getattr(e, "lheap", {}).items():
        if d[0][0] == "n":
            for x in ss:
                yield d, x


def offset(t):
    """t as (term, constant)"""
    if t[0] == "c":
        return ("c", 0), t[1]
    if t[0] == "add" and t[2][0] == "c":
        return t[1], t[2][1]
    return t, 0


def path_len(a):
    n = 0
    while isinstance(a, tuple) and a[0] in ("fld", "idx", "ld"):
        n += a[0] == "fld"
        a = a[1]
    return n


def generalise(t, pred):
    if pred(t):
        return ANY
    if isinstance(t, tuple):
        return tuple(generalise(x, pred) if isinstance(x, tuple) else x for x in t)
    return t


def has_any(t):
    return contains(t, ANY)


def unify(a, b):
    """do the two terms denote the same place up to unknown indices?"""
    if a == b:
        return True
    if a == ANY or b == ANY:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b or len(a) != len(b) or a[0] != b[0]:
        return False
    return all((x == y) or (isinstance(x, tuple) and isinstance(y, tuple) and unify(x, y)) for x, y in zip(a, b))


class Rep:
    def __init__(self, fn, place, at, what, rel):
        self.fn, self.place, self.at, self.what, self.rel = fn, place, at, what, rel


class Places:
    def __init__(self, prog, E, own, destructors=(), owned=()):
        self.p, self.E, self.own = prog, E, own
        self.destructors = set(destructors)
        self.owned = set(owned)          # fields released by a destructor
        self.adopts = {}
        self.adoptions = 0
        self.T = {}
        self.export = {}       # function -> {place term: release inst}
        self.reports = []
        self.followed = 0
        self.values_followed = 0
        self.parts_followed = 0
        self.lists_followed = 0
        self.callers = {}
        self._exposed = {}
        for f in prog.functions.values():
            if f.decl or not f.blocks:
                continue
            for i in f.calls():
                if i.callee:
                    self.callers.setdefault(i.callee, []).append((f, i))
        order = [f for f in own.order() if f.in_repo]
        for f in order:
            self.function(f)
            self.elements(f)
            self.parts(f)
            self.owners(f)

    def terms(self, f):
        if f.name not in self.T:
            self.T[f.name] = Terms(f)
        return self.T[f.name]

    # ------------------------------------------------------------ effects of calls
    def wtags(self, i):
        g = self.p.callee(i)
        if g is None or g.decl:
            return set()
        k = ("w", g.name)
        if k not in self._exposed:
            e = self.E.eff.get(g.name)
            self._exposed[k] = {self.ptag(p) for p in e.writes if p[0][0] in ("a", "g", "u")} if e else set()
        return self._exposed[k]

    @staticmethod
    def ptag(p):
        el = False
        for s in reversed(p[1:]):
            if "." in s:
                return (s, el)
            el = True
        return (None, el)

    def exposed(self, g, seen=None):
        """fields a function may read before it writes them"""
        if g.name in self._exposed:
            return self._exposed[g.name]
        self._exposed[g.name] = set()
        out = set()
        T = self.terms(g)
        # forward may-analysis: tags certainly not yet written = everything, per path; keep the
        # set of tags written on every path (must), reads outside it are exposed
        from .dom import rpo
        must = {}
        for b in rpo(g):
            ins = [must[q.id] for q in b.pred if q.id in must]
            m = set.intersection(*ins) if ins else set()
            for i in b.insts:
                if i.op == "load":
                    a = T.t(i.ops[0])
                    if a[0] == "fld" and a[2] not in m:
                        out.add(a[2])
                elif i.op == "store":
                    a = T.t(i.ops[1])
                    if a[0] == "fld":
                        m = m | {a[2]}
                elif i.op == "call":
                    h = self.p.callee(i)
                    if h is not None and not h.decl and h.blocks:
                        out |= {x for x in self.exposed(h) if x not in m}
                        m = m | {x for x, el in self.wtags(i) if x and not el}
            must[b.id] = m
        self._exposed[g.name] = out
        return out

    # ------------------------------------------------------------ one owner per object
    def adopted(self, i):
        """argument positions a call stores into a field that a destructor releases"""
        g = self.p.callee(i)
        if g is None or g.decl:
            return {}
        if g.name not in self.adopts:
            out = {}
            e = self.E.eff.get(g.name)
            for d, sr in allstores(e):
                if len(sr) == 1 and sr[0][0] == "a" and d[-1] in self.owned and d[0] != sr[0]:
                    out[sr[0][1]] = d[-1]
            self.adopts[g.name] = out
        return self.adopts[g.name]

    def owners(self, f):
        T = self.terms(f)
        ex = self.export.setdefault(f.name, {})
        for i in f.allinsts():
            if i.op == "store" and i.d.get("vty", "ptr") == "ptr" and not isinstance(i.ops[0], dict):
                B = T.t(i.ops[1])
                if B[0] != "fld" or B[2] not in self.owned:
                    continue
                self.adoption(f, T, i, i.ops[0], B, ex)
            elif i.op == "call":
                for k, tag in self.adopted(i).items():
                    if k < len(i.args) and not isinstance(i.args[k], dict):
                        self.adoption(f, T, i, i.args[k], ("fld", ("call", self.p.cname(i)), tag), ex)

    def adoption(self, f, T, at, v, B, ex):
        if not isinstance(v, int):
            return
        ld = self.source(f, v)
        self.adoptions += 1
        if ld is not None:
            A = T.t(ld.ops[0])
            if A[0] == "fld" and A[2] in self.owned and A != B and root(A)[0] != "loc":
                self.track(f, A, ld, at, ex, shared=True)
        else:
            # released later by the function itself
            w = {v}
            while isinstance(v, int) and f.insts[v].op in CASTS and not isinstance(f.insts[v].ops[0], dict):
                v = f.insts[v].ops[0]
                w.add(v)
            if not isinstance(v, int) or f.insts[v].op == "phi":
                return
            for R in f.calls():
                for k, a in enumerate(R.args):
                    if not isinstance(a, dict) and a in w and R is not at and self.own.argeff(R, k) == "consume" \
                            and R.callee != "realloc" and self.survives(f, T, at, R, f.insts[v], B):
                        self.rep(f, T.t(v), R, "it was stored in a field (%s) that owns it, at line %d" % (B[2].split(".")[-1], at.line()), R)

    def survives(self, f, T, at, R, x, B):
        """a path from the adoption to the release on which the field is not overwritten"""
        seen, work = set(), [(at.bb.id, at.bb.insts.index(at) + 1)]
        while work:
            bid, idx = work.pop()
            if (bid, idx) in seen:
                continue
            seen.add((bid, idx))
            stop = False
            for i in f.blocks[bid].insts[idx:]:
                if i is R:
                    return True
                if i is x or i.op == "store" and lastfield(T.t(i.ops[1])) == B[2] or \
                        i.op == "call" and any(t[0] == B[2] for t in self.wtags(i)):
                    stop = True
                    break
                if i.op == "call" and B[1][0] != "call":
                    # the owner is dissolved first (shallow release)
                    if any(not isinstance(a, dict) and T.t(a) in spine(B) and i.callee == "free" for a in i.args):
                        stop = True
                        break
            if not stop and not noreturn(f.blocks[bid]):
                work += [(s.id, 0) for s in f.blocks[bid].succ]
        return False

    # ------------------------------------------------------------ one function
    def function(self, f):
        T = self.terms(f)
        ex = self.export.setdefault(f.name, {})
        for i in f.calls():
            for k, a in enumerate(i.args):
                if isinstance(a, dict) or not isinstance(a, int):
                    continue
                if self.own.argeff(i, k) != "consume":
                    continue
                ld = self.source(f, a)
                if ld is None:
                    continue
                A = T.t(ld.ops[0])
                r = root(A)
                if r[0] == "loc" and A == r:
                    continue
                if A[0] not in ("fld", "idx"):
                    continue
                self.followed += 1
                self.track(f, A, ld, i, ex)
                self.stale(f, A, ld, i)
            g = self.p.callee(i)
            if g is not None and g.name in self.export and g is not f:
                for (B, shared), rel in list(self.export[g.name].items()):
                    C = B
                    bad = False
                    for k, a in enumerate(i.args):
                        if contains(C, ("p", k)):
                            C = subterm(C, ("p", k), ("@", k))
                    for k, a in enumerate(i.args):
                        if contains(C, ("@", k)):
                            C = subterm(C, ("@", k), T.t(a))
                    if contains(C, ("@", 0)) or path_len(C) > 4:
                        continue
                    self.followed += 1
                    self.track(f, C, None, i, ex, rel, shared)

    def source(self, f, v, n=0):
        while isinstance(v, int) and n < 10:
            i = f.insts[v]
            if i.op in CASTS:
                v = i.ops[0]
            elif i.op == "load":
                return i
            else:
                return None
            n += 1
        return None

    def facts0(self, f, T, at):
        """branch facts that hold at an instruction"""
        out = set()
        for c, t in dominating_conditions(f, at.bb):
            for key, truth in atom(T, f, c, t):
                if self.twice(f, T, key):
                    out.add((key, truth))
        return frozenset(out)

    def varying(self, f, l):
        """terms that differ from one iteration of the loop to the next"""
        ids = {i.id for b in l.blocks for i in f.blocks[b].insts}

        def pred(t):
            return isinstance(t, tuple) and len(t) == 3 and t[0] in ("iv", "v") and t[1] == () and t[2] in ids or \
                isinstance(t, tuple) and t and t[0] in ("call", "new") and ids & {x for x in t if isinstance(x, int)} != set()
        return pred

    def track(self, f, A, ld, rel, ex, origin=None, shared=False):
        T = self.terms(f)
        fl = lastfield(A)
        if fl is None:
            return
        L = loops(f)
        home = {h for h, l in L.items() if rel.bb.id in l.blocks}
        # loops elsewhere that overwrite elements of the same array
        clearing = set()
        if True:
            for h, l in L.items():
                if h in home:
                    continue
                for b in l.blocks:
                    for i in f.blocks[b].insts:
                        if i.op == "store" and self.loosely(T.t(i.ops[1]), A) and not self.before_first(f, T, l, T.t(i.ops[1]), A) \
                                and not self.sometimes(f, T, l, i):
                            clearing.add(h)
        reads = not shared
        start = ld if ld is not None else rel
        st0 = (start.bb.id, start.bb.insts.index(start) + 1, ld is None, A, self.facts0(f, T, start))
        seen, work = set(), [st0]
        steps = 0
        while work:
            bid, idx, dang, P, facts = work.pop()
            key = (bid, idx, dang, P, facts)
            if key in seen:
                continue
            seen.add(key)
            steps += 1
            if steps > 6000:
                return
            b = f.blocks[bid]
            if noreturn(b):
                continue
            dead = False
            for i in b.insts[idx:]:
                if i.op == "store":
                    a = T.t(i.ops[1])
                    if any(s == ("ld", a) for s in spine(P)) and self.moved(f, T, i, a, P):
                        continue
                    if a == P or (has_any(P) and unify(a, P)) or any(s == ("ld", a) for s in spine(P)):
                        dead = True
                        break
                    facts = frozenset(x for x in facts if not contains(x[0], ("ld", a)))
                elif i.op == "load":
                    if dang and reads and i is not ld and i.ty == "ptr" and (T.t(i.ops[0]) == P and not has_any(P) or self.wildread(T.t(i.ops[0]), P, b, L, home)):
                        self.rep(f, P, i, "is read again", origin or rel)
                        dead = True
                        break
                    if dang and reads and i is ld and T.t(i.ops[0]) == P and not has_any(P):
                        self.rep(f, P, i, "is read again in the next iteration", origin or rel)
                        dead = True
                        break
                elif i.op == "call":
                    if i is rel and not dang:
                        dang = True
                        if not self.spine_call(f, T, i, P):
                            continue
                        dead = True
                        break
                    if dang and self.again(T, i, P, fl):
                        self.rep(f, P, i, ("is also owned by another object and released by %s" if shared else "is released again by %s") % self.p.cname(i), origin or rel)
                        dead = True
                        break
                    if dang and self.resized(T, i, P):
                        continue
                    if self.spine_call(f, T, i, P):
                        dead = True
                        break
                    g = self.p.callee(i)
                    if g is not None and not g.decl:
                        passed = [T.t(x) for x in i.args]
                        reach = any(x in passed for x in spine(P)) or P in passed
                        if reach and dang and reads and fl in self.exposed(g) and P[0] == "fld" and \
                                (not has_any(P) or not any(b.id in L[h].blocks for h in home)):
                            self.rep(f, P, i, "is read again by %s" % self.p.cname(i), origin or rel)
                            dead = True
                            break
                        if any(t[0] == fl for t in self.wtags(i)):
                            dead = True
                            break
                        w = {t[0] for t in self.wtags(i)}
                        facts = frozenset(x for x in facts if not (fields(x[0]) & w))
                elif i.op == "ret":
                    if dang:
                        self.leave(f, P, i, origin or rel, ex, T, shared)
                    dead = True
                    break
            if dead:
                continue
            t = b.insts[-1]
            for k, s in enumerate(t.succ if t.op in ("br", "switch") else [x.id for x in b.succ]):
                nf, nP = facts, P
                if t.op == "br" and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
                    bad = False
                    for key2, truth in atom(T, f, t.d["cond"], k == 0):
                        if (key2, not truth) in nf:
                            bad = True
                        if key2[0] == "eq" and key2[2] == NULL and truth and (key2[1] == ("ld", P) or key2[1] in spine(P)):
                            bad = True       # it was dereferenced before
                        if not contains(key2, ("iv",)) and len(nf) < 6 and self.twice(f, T, key2):
                            nf = nf | {(key2, truth)}
                    if bad:
                        continue
                if s in clearing and dang:
                    continue
                if s in L and b.id in L[s].blocks:
                    # next iteration
                    pr = self.varying(f, L[s])
                    if not dang:
                        if start.bb.id in L[s].blocks:
                            continue
                    nP = generalise(P, pr)
                    nf = frozenset(x for x in nf if generalise(x[0], pr) == x[0])
                work.append((s, 0, dang, nP, nf))

    def resized(self, T, i, P):
        """realloc of the array the place lies in: the element is kept unless it is cut off"""
        if i.callee != "realloc" or P[0] != "idx" or T.t(i.args[0]) != P[1]:
            return False
        n = T.t(i.args[1])
        if n[0] != "mul":
            return False
        n = n[2] if n[1][0] == "c" else n[1]
        (a, ca), (b, cb) = offset(P[2]), offset(n)
        return not has_any(P) and a != ("iv",) and (a != b or ca < cb) and a[0] != "iv"

    def moved(self, f, T, st, a, P):
        """st stores the resized array back"""
        v = st.ops[0]
        while isinstance(v, int) and f.insts[v].op in CASTS:
            v = f.insts[v].ops[0]
        return isinstance(v, int) and f.insts[v].op == "call" and self.resized(T, f.insts[v], P) and T.t(f.insts[v].args[0]) == ("ld", a)

    def sometimes(self, f, T, l, st):
        """within its loop the store depends on what another element of an array contains"""
        cd = control_deps(f)
        B = T.t(st.ops[1])
        seen, work = set(), [st.bb.id]
        while work:
            for x, k in cd.get(work.pop(), ()):
                if x in seen or x not in l.blocks or x == l.header.id:
                    continue
                seen.add(x)
                work.append(x)
                t = f.blocks[x].insts[-1]
                if t.op != "br" or len(t.succ) != 2:
                    continue
                for key, truth in atom(T, f, t.d["cond"], k == 0):
                    if key[0] == "eq" and key[2] == NULL and key[1][0] == "ld" and key[1][1][0] == "idx" and B[0] == "idx" \
                            and key[1][1] != B and key[1][1][1] == B[1] and offset(key[1][1][2])[0] == offset(B[2])[0]:
                        return True
        return False

    def before_first(self, f, T, l, B, A):
        """the element at A lies before the first (or beyond the last) one the loop's store at B reaches"""
        if A[0] != "idx" or B[0] != "idx":
            return False
        b, cb = offset(B[2])
        if b[0] != "iv" or b[2] not in l.ivs:
            return False
        init, step = l.ivs[b[2]]
        a, ca = offset(A[2])
        i0, ci = offset(T.t(init))
        return a == i0 and step != 0 and (ca - ci - cb) * step < 0

    # ------------------------------------------------------------ old values of a place
    def stale(self, f, A, ld, rel):
        """values read from the place before the release must not be used after it"""
        from .dom import dominates
        T = self.terms(f)
        xs = []
        for x in f.allinsts():
            if x.op != "load" or x.ty != "ptr" or T.t(x.ops[0]) != A:
                continue
            if x is ld:
                xs.append(x)
            elif self.before(f, x, rel) and not self.changed(f, T, A, x, ld, rel):
                xs.append(x)
        for x in xs:
            self.values_followed += 1
            self.after(f, T, x, rel, A)

    def before(self, f, x, y):
        from .dom import dominates
        if x.bb is y.bb:
            return x.bb.insts.index(x) < x.bb.insts.index(y)
        return dominates(f, x.bb, y.bb)

    def changed(self, f, T, A, x, y, rel):
        """may the place be written between x and the release without x being executed again?"""
        fl = lastfield(A)
        seen, work = set(), [(x.bb.id, x.bb.insts.index(x) + 1)]
        while work:
            bid, idx = work.pop()
            if (bid, idx) in seen:
                continue
            seen.add((bid, idx))
            b = f.blocks[bid]
            stop = False
            for i in b.insts[idx:]:
                if i is rel or i is x:
                    stop = True
                    break
                if i.op == "store" and lastfield(T.t(i.ops[1])) == fl and self.reaches(f, i, rel, x):
                    return True
                if i.op == "call" and any(t[0] == fl for t in self.wtags(i)) and self.reaches(f, i, rel, x):
                    return True
            if not stop:
                work += [(s.id, 0) for s in b.succ]
        return False

    def reaches(self, f, a, b, avoid):
        seen, work = set(), [(a.bb.id, a.bb.insts.index(a) + 1)]
        while work:
            bid, idx = work.pop()
            if (bid, idx) in seen:
                continue
            seen.add((bid, idx))
            stop = False
            for i in f.blocks[bid].insts[idx:]:
                if i is b:
                    return True
                if i is avoid:
                    stop = True
                    break
            if not stop:
                work += [(s.id, 0) for s in f.blocks[bid].succ]
        return False

    def after(self, f, T, x, rel, A):
        # names of the value
        derived = {}

        def names(v):
            if v not in derived:
                al = {v}
                grow = True
                while grow:
                    grow = False
                    for i in f.allinsts():
                        if i.id not in al and (i.op in CASTS or i.op == "getelementptr") and i.ops \
                                and not isinstance(i.ops[0], dict) and i.ops[0] in al:
                            al.add(i.id)
                            grow = True
                derived[v] = al
            return derived[v]
        # phis that hold the value at the release
        hold = frozenset([x.id]) | self.phis_at(f, x, rel)
        seen, work = set(), [(rel.bb.id, rel.bb.insts.index(rel) + 1, self.facts0(f, T, rel), hold)]
        steps = 0
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            steps += 1
            if steps > 4000:
                return
            bid, idx, facts, hold = st
            b = f.blocks[bid]
            if noreturn(b):
                continue
            stop = False
            al = set()
            for v in hold:
                al |= names(v)
            for i in b.insts[idx:]:
                if i is x:
                    hold = hold - {x.id}
                    al = set()
                    for v in hold:
                        al |= names(v)
                    if not hold:
                        stop = True
                        break
                    continue
                if i.op == "load" and i.ops[0] in al and not isinstance(i.ops[0], dict):
                    self.rep(f, A, i, "the value read from it before is read through", rel)
                    stop = True
                elif i.op == "store" and not isinstance(i.ops[1], dict) and i.ops[1] in al:
                    self.rep(f, A, i, "the value read from it before is written through", rel)
                    stop = True
                elif i.op == "call" and i is not rel:
                    for a in i.args:
                        if not isinstance(a, dict) and a in al and not str(i.callee).startswith("llvm.lifetime"):
                            self.rep(f, A, i, "the value read from it before is passed to %s" % self.p.cname(i), rel)
                            stop = True
                            break
                elif i.op == "call" and i is rel:
                    self.rep(f, A, i, "the value read from it before is released again", rel)
                    stop = True
                elif i.op == "ret":
                    if i.ops and not isinstance(i.ops[0], dict) and i.ops[0] in al:
                        self.rep(f, A, i, "the value read from it before is returned", rel)
                    stop = True
                if stop:
                    break
                if i.op == "store" and facts:
                    a = T.t(i.ops[1])
                    facts = frozenset(y for y in facts if not contains(y[0], ("ld", a)))
                elif i.op == "call" and facts:
                    w = {t[0] for t in self.wtags(i)}
                    facts = frozenset(y for y in facts if not (fields(y[0]) & w))
            if stop:
                continue
            t = b.insts[-1]
            for k, s in enumerate(t.succ if t.op in ("br", "switch") else [y.id for y in b.succ]):
                nf = facts
                if t.op == "br" and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
                    bad = False
                    for key2, truth in atom(T, f, t.d["cond"], k == 0):
                        if (key2, not truth) in nf:
                            bad = True
                        if len(nf) < 6 and self.twice(f, T, key2):
                            nf = nf | {(key2, truth)}
                    if bad:
                        continue
                L = loops(f)
                if s in L and b.id in L[s].blocks:
                    pr = self.varying(f, L[s])
                    nf = frozenset(y for y in nf if generalise(y[0], pr) == y[0])
                nh = set(hold)
                for i in f.blocks[s].insts:
                    if i.op == "phi":
                        v = next((y for y, q in i.d["inc"] if q == b.id), None)
                        if isinstance(v, int) and any(v in names(h) and self.same(f, h, v) for h in hold):
                            nh.add(i.id)
                        else:
                            nh.discard(i.id)
                if nh:
                    work.append((s, 0, nf, frozenset(nh)))

    def same(self, f, h, v):
        """v is h up to casts"""
        while v != h and isinstance(v, int) and f.insts[v].op in CASTS:
            v = f.insts[v].ops[0]
        return v == h

    def phis_at(self, f, x, rel):
        """phis that certainly hold x's value when the release is reached through them"""
        out = set()
        for i in f.allinsts():
            if i.op == "phi" and i.ty == "ptr" and self.before(f, i, rel):
                inc = [v for v, b in i.d["inc"]]
                if any(isinstance(v, int) and self.same(f, x.id, v) for v in inc) and \
                        all(v == "null" or isinstance(v, int) and self.same(f, x.id, v) for v in inc):
                    out.add(i.id)
        return frozenset(out)

    # ------------------------------------------------------------ elements of a released list
    def web(self, f, v):
        """values connected by phis and casts"""
        g = getattr(f, "_web", None)
        if g is None:
            g = {}
            for i in f.allinsts():
                if i.op == "phi":
                    for x, b in i.d["inc"]:
                        if isinstance(x, int) or (isinstance(x, str) and x[0] == "a" and x[1:].isdigit()):
                            g.setdefault(x, set()).add(i.id)
                            g.setdefault(i.id, set()).add(x)
                elif i.op in CASTS and not isinstance(i.ops[0], dict):
                    g.setdefault(i.ops[0], set()).add(i.id)
                    g.setdefault(i.id, set()).add(i.ops[0])
            f._web = g
        out, work = {v}, [v]
        while work:
            for y in g.get(work.pop(), ()):
                if y not in out:
                    out.add(y)
                    work.append(y)
        return out

    def gbase(self, f, v):
        while isinstance(v, int) and (f.insts[v].op == "getelementptr" or f.insts[v].op in CASTS):
            v = f.insts[v].ops[0]
        return v if not isinstance(v, dict) else None

    def deep(self, i, k):
        g = self.p.callee(i)
        e = self.E.eff.get(g.name) if g is not None else None
        return bool(e) and ((("a", k), "[]", "*") in e.frees or (("a", k), "*") in e.frees)

    def elements(self, f):
        T = self.terms(f)
        for R in f.calls():
            for k, a in enumerate(R.args):
                if isinstance(a, dict) or not self.deep(R, k):
                    continue
                self.lists_followed += 1
                cweb = self.web(f, a) if not isinstance(a, str) or a[0] == "a" else set()
                mem = None
                if isinstance(a, int) and f.insts[a].op == "load" and isinstance(f.insts[a].ops[0], int) \
                        and f.insts[f.insts[a].ops[0]].op == "alloca":
                    mem = f.insts[a].ops[0]
                for c in f.calls():
                    for k2, q in enumerate(c.args):
                        if c is not R and not isinstance(q, dict) and (q in cweb or mem is not None and isinstance(q, int)
                                and f.insts[q].op == "load" and f.insts[q].ops[0] == mem):
                            g = self.p.callee(c)
                            e = self.E.eff.get(g.name) if g is not None and not g.decl else None
                            if e and c.ty == "ptr" and any(sr == (("a", k2), "[]", "*") and (d[0] in {p[0] for p in e.rets} and d[0][0] == "n")
                                                           for d, sr in allstores(e)):
                                self.judge(f, T, c, c, c.id, R, cweb, c, (q, k2))
                for x in f.allinsts():
                    if x.op != "load" or x.ty != "ptr":
                        continue
                    b = self.gbase(f, x.ops[0])
                    if b is None or isinstance(b, str) and b not in cweb:
                        continue
                    if b not in cweb:
                        if mem is None or not isinstance(b, int) or f.insts[b].op != "load" or f.insts[b].ops[0] != mem:
                            continue
                    elif isinstance(x.ops[0], int) and any("f" in st for st in (f.insts[x.ops[0]].d.get("path") or ())):
                        continue
                    if self.before(f, x, R) or self.loaded_before(f, x, R):
                        self.after(f, T, x, R, T.t(x.ops[0]))
                    self.elem(f, T, x, R, cweb | ({b} if mem is not None else set()))

    @staticmethod
    def relpath(A, o):
        out = []
        t = A
        while t != o:
            if not isinstance(t, tuple) or t[0] not in ("fld", "idx", "ld"):
                return None
            out.append(t[2] if t[0] == "fld" else "[]" if t[0] == "idx" else "*")
            t = t[1]
        return tuple(reversed(out))

    def parts(self, f):
        """what an object owns must not be used, or kept elsewhere, once the object is released"""
        T = self.terms(f)
        for R in f.calls():
            g = self.p.callee(R)
            e = self.E.eff.get(g.name) if g is not None and not g.decl else None
            if e is None:
                continue
            for k, a in enumerate(R.args):
                if isinstance(a, dict) or self.own.argeff(R, k) != "consume":
                    continue
                o = T.t(a)
                if o == NULL or o[0] == "c":
                    continue
                for x in f.allinsts():
                    if x.op != "load" or x.ty != "ptr":
                        continue
                    A = T.t(x.ops[0])
                    if A[0] not in ("fld", "idx") or not contains(A, o):
                        continue
                    rp = self.relpath(A, o)
                    if not rp or (("a", k),) + rp + ("*",) not in e.frees or not self.before(f, x, R):
                        continue
                    if self.changed(f, T, A, x, R, R):
                        continue
                    self.parts_followed += 1
                    self.after(f, T, x, R, A)
                    self.elem(f, T, x, R, set())

    def loaded_before(self, f, x, R):
        """x is executed on a path to R whose phi carries it there"""
        return self.reaches(f, x, R, None) and bool(self.phis_at(f, x, R))

    def elem(self, f, T, x, R, cweb):
        al = self.web(f, x.id)
        for i in f.allinsts():
            tgt = None
            if i.op == "store" and not isinstance(i.ops[0], dict) and i.ops[0] in al:
                a = i.ops[1]
                base = self.gbase(f, a)
                if isinstance(base, int) and f.insts[base].op == "alloca":
                    if a == base or True:
                        # a variable (or local array): does a call copy its contents somewhere?
                        for c in f.calls():
                            if c is R or not self.reaches(f, i, c, x):
                                continue
                            for k, q in enumerate(c.args):
                                if not isinstance(q, dict) and self.gbase(f, q) == base:
                                    t = self.copies(f, c, k, True)
                                    if t is not None:
                                        self.judge(f, T, x, c, t, R, cweb, i)
                    continue
                if base is None or base in cweb:
                    continue
                tgt = base
                self.judge(f, T, x, i, tgt, R, cweb, i)
            elif i.op == "call" and i is not R:
                for k, q in enumerate(i.args):
                    if not isinstance(q, dict) and q in al:
                        t = self.copies(f, i, k, False)
                        if t is not None:
                            self.judge(f, T, x, i, t, R, cweb, i)

    def copies(self, f, c, k, through):
        """where call c puts its k-th argument (or what that points to), if anywhere"""
        g = self.p.callee(c)
        e = self.E.eff.get(g.name) if g is not None and not g.decl else None
        if e is None:
            if c.callee and (c.callee.startswith("llvm.memcpy") or c.callee in ("memcpy", "memmove")) and k == 1 and through:
                return self.gbase(f, c.args[0])
            return None
        src = (("a", k), "*") if through else (("a", k),)
        for d, sr in allstores(e):
            if sr != src and not (through and sr == (("a", k), "[]", "*")):
                continue
            if d[0][0] == "a" and d[0][1] != k:
                if any(p[0] == d[0] for p in e.rets) or any(p[0][0] == "n" for p in e.rets):
                    return c.id
                return c.args[d[0][1]] if not isinstance(c.args[d[0][1]], dict) else None
            if d[0][0] == "n" and any(p[0] == d[0] for p in e.rets):
                return c.id
        return None

    def judge(self, f, T, x, esc, tgt, R, cweb, st, lst=None):
        if tgt is None or not self.reaches(f, esc, R, x) and not self.reaches(f, esc, R, None):
            return
        if tgt in cweb:
            return
        # is the slot of the list given up?
        for i in f.allinsts():
            if i.op == "store" and i is not st:
                b = self.gbase(f, i.ops[1])
                if b in cweb and self.reaches(f, esc, i, None) and self.reaches(f, i, R, None):
                    return
        w = self.web(f, tgt)
        r = T.t(tgt) if not isinstance(tgt, str) else T.t(tgt)
        rt = root(r)
        alive = None
        if rt[0] == "p":
            alive = "kept in an argument"
        elif rt[0] == "x":
            alive = "kept in a global"
        else:
            for i in f.allinsts():
                if i.op == "ret" and i.ops and i.ops[0] in w:
                    alive = "returned"
                elif i.op == "load" and isinstance(i.ops[0], int) and self.gbase(f, i.ops[0]) in w and self.reaches(f, R, i, None):
                    alive = "used at line %d" % i.line()
        if alive:
            self.reports.append(Rep(f, T.t(x.ops[0]) if lst is None else ("idx", T.t(lst[0]), ANY), esc, "an element of the list is %s although the list and its elements are released" % alive, R))

    def twice(self, f, T, key):
        c = getattr(f, "_condkeys", None)
        if c is None:
            c = {}
            for b in f.blocks:
                t = b.insts[-1] if b.insts else None
                if t is not None and t.op == "br" and len(t.succ) == 2:
                    for k, tr in atom(T, f, t.d["cond"], True):
                        c[k] = c.get(k, 0) + 1
            f._condkeys = c
        return c.get(key, 0) > 1

    def loosely(self, a, A):
        """same field/array, whatever the indices"""
        def g(t):
            if isinstance(t, tuple) and t and t[0] == "idx":
                return ("idx", g(t[1]), ANY)
            if isinstance(t, tuple):
                return tuple(g(x) if isinstance(x, tuple) else x for x in t)
            return t
        return g(a) == g(A) or unify(g(a), g(A)) and lastfield(a) == lastfield(A) and a[0] == A[0]

    def spine_call(self, f, T, i, P):
        """the object the place lies in is released, or handed to something unknown"""
        sp = spine(P)
        for k, a in enumerate(i.args):
            if isinstance(a, dict):
                continue
            t = T.t(a)
            if t in sp or (has_any(P) and any(unify(t, s) and s != ANY for s in sp)):
                e = self.own.argeff(i, k)
                if e in ("consume", "maybe"):
                    return True
                if e == "escape":
                    g = self.p.callee(i)
                    if g is None or g.decl:
                        return True
        return False

    def public(self, f):
        return not self.callers.get(f.name) and f.short not in self.destructors

    def leave(self, f, P, ret, rel, ex, T, shared):
        what = "another object owns it as well" if shared else None
        r = root(P)
        if r[0] == "p":
            Q = generalise(P, lambda t: isinstance(t, tuple) and t and t[0] in ("iv", "v", "call", "new", "sel", "loc"))
            if self.public(f):
                self.rep(f, P, ret, what or "still points to it when the function returns", rel)
            elif path_len(Q) <= 4:
                ex.setdefault((Q, shared), rel)
        elif r[0] in ("call", "new"):
            rv = T.t(ret.ops[0]) if ret.ops and f.retty == "ptr" else None
            if rv == r:
                self.rep(f, P, ret, what or "still points to it when the function returns the object", rel)
        elif r[0] == "x":
            self.rep(f, P, ret, what or "still points to it when the function returns", rel)

    def wildread(self, a, P, b, L, home):
        return has_any(P) and P[0] == "fld" and a[0] == "fld" and unify(a, P) and not any(b.id in L[h].blocks for h in home)

    def again(self, T, i, P, fl):
        """the call releases what the place points to"""
        g = self.p.callee(i)
        e = self.E.eff.get(g.name) if g is not None and not g.decl else None
        if e is None or fl not in self.exposed(g):
            return False
        for k, a in enumerate(i.args):
            if isinstance(a, dict):
                continue
            o = T.t(a)
            if o in spine(P) and o != ANY:
                rp = self.relpath(P, o)
                if rp and (("a", k),) + rp + ("*",) in e.frees:
                    return True
        return False

    def rep(self, f, P, at, what, rel):
        self.reports.append(Rep(f, P, at, what, rel))
