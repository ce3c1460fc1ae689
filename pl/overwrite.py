"""Owned pointers that are overwritten while they still hold an object.

At every store to a place that owns an object (a field its structure's
destructor releases, or an element of such an array) the paths into the store
are followed backwards until the old object is known to be released, handed
on, or absent; into the callers when the function's entry is reached."""
from .term import Terms, loops, innermost, noreturn, atom, NULL, contains, subterm, show
from .places import root, lastfield, spine, generalise, unify, has_any
from .expr import CASTS

ANY = ("any",)
# functions called from outside with objects that are still being built (confirmed by reading)
BUILDS = {("basic_map_extract_dep", "dependence.dirvec"), ("basic_map_extract_dep", "dependence.dpolytope"),
          ("basic_map_extract_dep", "dependence.bounding_poly"),
          ("pluto_get_remapping_str", "remapping.stmt_inv_matrices"), ("pluto_get_remapping_str", "remapping.stmt_divs")}


class Overwrite:
    def __init__(self, prog, E, own, places, owned):
        self.p, self.E, self.own, self.pl, self.owned = prog, E, own, places, owned
        self.stores = self.arrays = 0
        self.reports = []
        self.memo = {}
        for f in prog.repo_functions:
            if f.blocks:
                self.function(f)

    def place(self, A):
        """the owned field a place belongs to, or None"""
        if A[0] == "fld" and A[2] in self.owned:
            return A[2]
        if A[0] == "p":
            return "*%d" % A[1]
        if A[0] == "idx" and A[1][0] == "ld" and A[1][1][0] == "fld" and self.owned.get(A[1][1][2]):
            return A[1][1][2] + "[]"
        return None

    def function(self, f):
        T = self.pl.terms(f)
        for i in f.allinsts():
            if i.op == "call" and i.callee == "free" and isinstance(i.args[0], int):
                self.emptied(f, T, i)
            if i.op != "store" or i.d.get("vty", "ptr") != "ptr" or isinstance(i.ops[0], dict):
                continue
            A = T.t(i.ops[1])
            fl = self.place(A)
            if fl is None:
                continue
            v = T.t(i.ops[0])
            if contains(v, ("ld", A)) or self.realloced(f, T, i.ops[0], A):
                continue
            self.stores += 1
            why = self.back(f, T, A, i, 0)
            if why:
                self.reports.append((f, i, A, fl, why))

    def emptied(self, f, T, i):
        """an array in a field is released: its elements must be gone"""
        t = T.t(i.args[0])
        if t[0] != "ld" or t[1][0] != "fld" or not self.owned.get(t[1][2]):
            return
        P = ("idx", t, ANY)
        self.arrays += 1
        # a loop over the elements right before
        why = self.back(f, T, P, i, 0, True)
        if why:
            self.reports.append((f, i, P, t[1][2] + "[]", "the array is released, and " + why))

    def realloced(self, f, T, v, A):
        n = 0
        while isinstance(v, int) and n < 6:
            i = f.insts[v]
            if i.op in CASTS:
                v = i.ops[0]
                n += 1
                continue
            return i.op == "call" and i.callee in ("realloc", "reallocarray") and T.t(i.args[0]) == ("ld", A)
        return False

    # ------------------------------------------------------------ backwards
    def back(self, f, T, A, at, depth, elems=False):
        """a description of a path on which the old object is still there, or None"""
        L = loops(f)
        seen = set()
        idx = at.bb.insts.index(at)
        work = [(at.bb.id, idx, A)]
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            if len(seen) > 3000:
                return None
            bid, idx, P = st
            b = f.blocks[bid]
            stop = False
            for i in reversed(b.insts[:idx]):
                r = self.settles(f, T, i, P, elems)
                if r == "set":
                    return "it was set by %s at line %d" % (self.p.cname(i) if i.op == "call" else "a store", i.line())
                if r:
                    stop = True
                    break
            if stop:
                continue
            r = root(P)
            # the object itself comes to be here
            if r[0] in ("v", "iv", "new", "call") and isinstance(r[-1] if r[0] != "call" else r[3], int):
                d = f.insts.get(r[-1] if r[0] != "call" else r[3]) if (r[1] if r[0] != "call" else r[2]) == () else None
                if r[0] == "call" and d is not None and d.bb.id == bid and elems:
                    g = self.p.callee(d)
                    if g is not None and not g.decl and g.blocks and self.leaves(g, lastfield(P), True):
                        return "%s at line %d returns it set" % (self.p.cname(d), d.line())
                if d is not None and d.bb.id == bid and (bid != at.bb.id or d.bb.insts.index(d) < at.bb.insts.index(at)):
                    continue
            if not b.pred:
                w = self.entry(f, T, P, depth, elems)
                if w:
                    return w
                continue
            l = L.get(bid)
            for q in b.pred:
                Q = P
                if l is not None:
                    if q.id in l.blocks:
                        # the same element again, or one of an earlier iteration
                        if self.varies(f, l, P):
                            continue
                    else:
                        Q = generalise(P, lambda t: len(t) > 2 and t[0] == "iv" and t[1] == () and t[2] in l.ivs)
                t = q.insts[-1]
                if t.op == "br" and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
                    k = 0 if t.succ[0] == bid else 1
                    if any(self.absent(key, truth, Q) for key, truth in atom(T, f, t.d["cond"], k == 0)):
                        continue
                # a loop over the elements that settles each of them
                if has_any(Q) and any(q.id in x.blocks and bid not in x.blocks and
                                      any(self.settles(f, T, i, Q) is True for y in x.blocks for i in f.blocks[y].insts) for x in L.values()):
                    continue
                work.append((q.id, len(q.insts), Q))
        return None

    def varies(self, f, l, P):
        g = generalise(P, lambda t: len(t) > 2 and t[0] in ("iv", "v") and t[1] == () and t[2] in f.insts and f.insts[t[2]].bb.id in l.blocks)
        return g != P

    def absent(self, key, truth, P):
        if key[0] == "eq" and truth and key[2] in (NULL, ("c", 0)) and key[1][0] == "ld" and unify(key[1][1], P):
            return True
        # the array itself is not there, or has no elements
        if P[0] == "idx" and key[0] == "eq" and truth and key[2] in (NULL, ("c", 0)) and unify(key[1], P[1]):
            return True
        # a containing object is not there
        if key[0] == "eq" and truth and key[2] == NULL and any(unify(key[1], s) for s in spine(P)):
            return True
        return False

    def settles(self, f, T, i, P, elems=False):
        fl = lastfield(P)
        if i.op == "load":
            if unify(T.t(i.ops[0]), P) and self.handed_on(f, i):
                return True
        elif i.op == "store":
            B = T.t(i.ops[1])
            if unify(B, P):
                if elems and T.t(i.ops[0]) != NULL:
                    return "set"
                # the same place (not merely one of the same array) got an object of its own
                return "set" if B == P and not has_any(P) and self.made(f, i) else True
            if any(s[0] == "ld" and unify(B, s[1]) for s in spine(P)):
                return True
        elif i.op == "call":
            c = i.callee or "?"
            if c.startswith("llvm.lifetime") or c.startswith("llvm.dbg"):
                return False
            if c.startswith("llvm.memset") or c.startswith("llvm.memcpy"):
                a = T.t(i.args[0])
                return any(unify(a, x) for x in spine(P)) or unify(a, root(P))
            for k, a in enumerate(i.args):
                if isinstance(a, dict):
                    continue
                if self.own.argeff(i, k) in ("consume", "maybe", "escape"):
                    t = T.t(a)
                    if unify(t, ("ld", P)) or any(unify(t, s) for s in spine(P)):
                        return True
            g = self.p.callee(i)
            if g is None:
                return True
            if g.decl:
                return False
            e = self.E.eff.get(g.name)
            if e is None:
                return True
            known = False
            for k, a in enumerate(i.args):
                if isinstance(a, dict):
                    continue
                t = T.t(a)
                o = next((s for s in self.prefixes(P) if unify(s, t)), None)
                if o is None or t[0] == "c" or t == NULL:
                    continue
                known = True
                rp = (("a", k),) + self.pl.relpath(P, o)
                for n in range(2, len(rp)):
                    if rp[:n] in e.writes and not (n < len(rp) and rp[n] == "[]" and n == len(rp) - 1):
                        return True
                if rp in e.writes:
                    return "set" if self.leaves(g, fl) else True
                if any(p[:len(rp)] == rp for p in e.frees):
                    return True
            if not known:
                if any(fl in p[1:] for p in e.frees):
                    return True
                tags = {t[0] for t in self.pl.wtags(i)}
                s = ("ld", P)
                while isinstance(s, tuple) and s[0] in ("fld", "idx", "ld"):
                    s = s[1]
                    if s[0] == "fld" and s[2] in tags:
                        return True
        return False

    def made(self, f, st):
        v = st.ops[0]
        n = 0
        while isinstance(v, int) and n < 6:
            i = f.insts[v]
            if i.op in CASTS:
                v = i.ops[0]
                n += 1
                continue
            return i.op == "call" and self.own.call_owned(i) == "heap"
        return False

    @staticmethod
    def prefixes(P):
        t = P
        while isinstance(t, tuple) and t[0] in ("fld", "idx", "ld"):
            t = t[1]
            yield t

    def leaves(self, g, fl, elem=False):
        """does a function store something other than NULL in the field (an element of the field)?"""
        k = (g.name, fl, elem)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        r = False
        T = self.pl.terms(g)
        for i in g.allinsts():
            if i.op == "store" and lastfield(T.t(i.ops[1])) == fl and i.d.get("vty", "ptr") == "ptr":
                if T.t(i.ops[0]) != NULL and (not elem or T.t(i.ops[1])[0] == "idx"):
                    r = True
            elif i.op == "call":
                h = self.p.callee(i)
                if h is not None and not h.decl and h.blocks and self.leaves(h, fl, elem):
                    r = True
        self.memo[k] = r
        return r

    def handed_on(self, f, ld):
        """the value read is stored, returned or given away"""
        w, work = {ld.id}, [ld.id]
        while work:
            v = work.pop()
            for i in f.allinsts():
                if i.op in CASTS or i.op == "phi" or i.op == "select":
                    ops = [x for x, q in i.d["inc"]] if i.op == "phi" else i.ops
                    if any(not isinstance(x, dict) and x == v for x in ops) and i.id not in w:
                        w.add(i.id)
                        work.append(i.id)
                elif i.op == "store" and not isinstance(i.ops[0], dict) and i.ops[0] == v:
                    return True
                elif i.op == "ret" and i.ops and i.ops[0] == v:
                    return True
                elif i.op == "call":
                    for k, a in enumerate(i.args):
                        if not isinstance(a, dict) and a == v and (self.own.argeff(i, k) in ("consume", "escape", "maybe") or k in self.pl.adopted(i)):
                            return True
        return False

    def entry(self, f, T, P, depth, elems=False):
        r = root(P)
        if r[0] != "p":
            return None
        cs = self.pl.callers.get(f.name, [])
        if elems:
            return "the elements that come in with it are not"
        if not cs and P == r:
            return None
        if not cs:
            if (f.short, lastfield(P)) in BUILDS:
                return None
            return "%s is reached from outside with it set" % f.short
        if depth >= 4:
            return None
        for g, i in cs:
            if g is f:
                continue
            if r[1] >= len(i.args) or isinstance(i.args[r[1]], dict):
                continue
            TG = self.pl.terms(g)
            C = generalise(P, lambda t: len(t) > 1 and t[0] in ("iv", "v", "new", "loc", "call"))
            for k, a in enumerate(i.args):
                if contains(C, ("p", k)):
                    C = subterm(C, ("p", k), ("@", k))
            for k, a in enumerate(i.args):
                if contains(C, ("@", k)):
                    C = subterm(C, ("@", k), TG.t(a) if not isinstance(a, dict) else ANY)
            # &object: the field lies in the object itself
            w = self.back(g, TG, C, i, depth + 1, elems)
            if w:
                return w
        return None
