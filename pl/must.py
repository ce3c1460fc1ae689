"""What a function does to a field of an object on every path: copies it from a
source object, or releases it.  Loops count when they visit every element."""
from .term import Terms, loops, iv_of, noreturn, subterm, contains, fields, atom, implied_empty, show, NULL, innermost, mkadd
from .dom import dominating_conditions, dominates
from .expr import CASTS

D, S = ("obj", "D"), ("obj", "S")
MEMCPY = ("memcpy", "memmove")
GOOD, BAD, UNKNOWN = "good", "bad", "unknown"


def fld(o, name):
    return ("fld", o, name)


def base_callee(i):
    c = i.callee or ""
    return c.split(".")[1] if c.startswith("llvm.") else c


class Frame:
    """one function in one calling context"""

    def __init__(self, M, f, bind, chain, resD):
        self.M, self.f, self.chain, self.bind = M, f, chain, bind
        sub = {}
        if resD:
            for i in M.makers(f):
                sub[i.id] = resD if isinstance(resD, tuple) else D
        self.T = Terms(f, bind, chain, sub)
        # a loop that walks a list of such objects: its cursor is the object
        self.walk = {}
        for l in loops(f).values():
            for i in l.header.insts:
                if i.op != "phi" or i.ty != "ptr":
                    continue
                out = [v for v, b in i.d["inc"] if b not in l.blocks]
                ins = [v for v, b in i.d["inc"] if b in l.blocks]
                if out and ins and all(self.T.t(v) == D for v in out):
                    me = self.T.t(i.id)
                    nx = {self.T.t(v) for v in ins}
                    if len(nx) == 1:
                        n = nx.pop()
                        if n[0] == "ld" and n[1][0] == "fld" and n[1][1] == me and n[1][2].endswith(".next"):
                            self.walk[i.id] = n[1][2]
        if self.walk:
            sub.update({k: D for k in self.walk})
            self.T = Terms(f, bind, chain, sub)
        # fresh arrays that end up in a field of the object
        more = {}
        for i in f.allinsts():
            if i.op == "store":
                v = self.T.t(i.ops[0])
                if v[0] == "new" and v[1] == chain:
                    a = self.T.t(i.ops[1])
                    if a[0] in ("fld", "idx") and contains(a, D):
                        more[v[2]] = ("ld", a) if v[2] not in more else None
        more = {k: v for k, v in more.items() if v is not None}
        self.fresh = {}
        if more:
            sub.update(more)
            self.T = Terms(f, bind, chain, sub)
            self.fresh = more


class Must:
    def __init__(self, prog, E, copiers=(), releasers=()):
        self.p, self.E = prog, E
        self.copiers = set(copiers)      # functions returning a deep copy of their argument
        self.releasers = set(releasers)
        self.shallow = set()             # functions that copy only part of their argument
        self.analysed = 0
        self._w = {}

    # ------------------------------------------------ helpers
    def makers(self, f):
        """calls whose result the function returns"""
        out, seen, work = [], set(), []
        for b in f.blocks:
            if b.insts and b.insts[-1].op == "ret" and b.insts[-1].ops:
                work.append(b.insts[-1].ops[0])
        while work:
            v = work.pop()
            if not isinstance(v, int) or v in seen:
                continue
            seen.add(v)
            i = f.insts[v]
            if i.op == "phi":
                work += [x for x, b in i.d["inc"]]
            elif i.op in CASTS:
                work.append(i.ops[0])
            elif i.op == "select":
                work += i.ops[1:]
            elif i.op == "call":
                out.append(i)
        return out

    def frame(self, f, bind, chain, resD):
        self.analysed += 1
        return Frame(self, f, bind, chain, resD)

    def callee_frame(self, fr, i, res=None):
        """res: the term the function's result stands for in the caller (None: the object itself, if it is)"""
        g = self.p.callee(i)
        if g is None or g.decl or len(fr.chain) > 4 or not g.blocks:
            return None
        if any(c == (g.name,) or c[0] == g.name for c in fr.chain):
            return None
        bind = {k: fr.T.t(a) for k, a in enumerate(i.args)}
        resD = res if res is not None else fr.T.t(i.id) == D
        if not resD and not any(contains(b, D) for b in bind.values()):
            return None
        return self.frame(g, bind, fr.chain + ((g.name, i.id),), resD)

    def writes(self, g, field):
        """may g write the field (of some object)?"""
        k = (g.name, field)
        if k not in self._w:
            e = self.E.eff.get(g.name)
            self._w[k] = bool(e) and any(p[-1] == field or (field in p and p[-1] in ("[]", "*")) for p in e.definite)
        return self._w[k]

    # ------------------------------------------------ path search
    def search(self, fr, addr, counts, event, headers, target=None, start=None, stop=None, nonnull=None):
        """None when every path has the event; otherwise the block where a path without it ends.
        event(inst) -> True/False/None (None: resets).  headers: loop headers that count as the event."""
        f, T = fr.f, fr.T
        rel = fields(addr)
        if nonnull is not None:
            rel |= fields(nonnull)
        for c in counts:
            rel |= fields(c)
        b0 = start if start is not None else f.blocks[0]
        st0 = (b0.id, frozenset(), False)
        seen, work = {st0}, [st0]
        steps = 0
        while work:
            bid, facts, bit = work.pop()
            steps += 1
            if steps > 20000:
                return None
            b = f.blocks[bid]
            if target is not None and b is target:
                if not bit:
                    return b
                continue
            if bid in headers:
                bit = True
            if noreturn(b):
                continue
            fx = facts
            for i in b.insts:
                e = event(i)
                if e is True:
                    bit = True
                elif e is None:
                    bit = False
                if fx and i.op in ("store", "call"):
                    fx = self.kill(fr, i, fx)
            t = b.insts[-1]
            if t.op == "ret":
                if target is None and not bit and stop is None and self.relevant_ret(fr, t):
                    return b
                continue
            for k, s in enumerate(t.succ if t.op in ("br", "switch") else [x.id for x in b.succ]):
                if stop is not None and stop(b, f.blocks[s]):
                    if stop(b, f.blocks[s]) == "fail" and not bit:
                        return b
                    continue
                nf = fx
                if t.op == "br" and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
                    bad = False
                    for key, truth in atom(T, f, t.d["cond"], k == 0):
                        if implied_empty(key, truth, addr, counts):
                            bad = True
                        if (key, not truth) in nf:
                            bad = True
                        if nonnull is not None and implied_empty(key, not truth, nonnull, []):
                            bad = True
                        if fields(key) & rel or key[0] == "eq" and key[1] in (D, S) and key[2] == NULL:
                            if key[0] == "eq" and key[1] in (D, S) and key[2] == NULL and truth:
                                bad = True       # no object at all
                            nf = nf | {(key, truth)}
                    if bad:
                        continue
                st = (s, nf, bit)
                if st not in seen:
                    seen.add(st)
                    work.append(st)
        return None

    def relevant_ret(self, fr, t):
        if not t.ops or fr.f.retty != "ptr":
            return True
        v = fr.T.t(t.ops[0])
        return v != NULL

    def kill(self, fr, i, facts):
        if i.op == "store":
            a = fr.T.t(i.ops[1])
            if a[0] != "fld":
                return facts
            return frozenset(x for x in facts if not contains(x[0], ("ld", a)))
        g = self.p.callee(i)
        if g is None or g.decl:
            return facts
        e = self.E.eff.get(g.name)
        w = {x for p in e.writes for x in p[-1:] if "." in str(x)} if e else set()
        return frozenset(x for x in facts if not (fields(x[0]) & w))

    # ------------------------------------------------ copy of a value
    def value(self, fr, v, src):
        """is SSA value v a copy (plain or deep) of the content of location src?"""
        f, T = fr.f, fr.T
        want = ("ld", src)
        if isinstance(v, int):
            i = f.insts[v]
            if i.op in CASTS:
                return self.value(fr, i.ops[0], src)
            if i.op in ("phi", "select"):
                inc = [(x, f.blocks[b]) for x, b in i.d["inc"]] if i.op == "phi" else [(x, i.bb) for x in i.ops[1:]]
                if i.op == "phi" and iv_of(f, v):
                    return BAD
                got = []
                for k, (x, b) in enumerate(inc):
                    if x == "null" or (isinstance(x, str) and x == "c:0"):
                        conds = list(dominating_conditions(f, b)) if i.op == "phi" else [(i.ops[0], k == 0)]
                        if i.op == "phi" and b.insts[-1].op == "br" and len(b.insts[-1].succ) == 2:
                            conds.append((b.insts[-1].d["cond"], b.insts[-1].succ[0] == i.bb.id))
                        if any(implied_empty(key, tr, src, []) for c, t in conds for key, tr in atom(T, f, c, t)):
                            got.append(GOOD)
                        else:
                            got.append(BAD)
                    else:
                        got.append(self.value(fr, x, src))
                if BAD in got:
                    return BAD
                return UNKNOWN if UNKNOWN in got else GOOD
            if i.op == "call":
                n = self.p.cname(i)
                if n in self.copiers or i.callee in ("strdup", "__strdup"):
                    return GOOD if T.t(i.args[0]) == want else BAD
                if n in self.shallow:
                    return BAD
                if any(contains(T.t(a), want) for a in i.args):
                    return UNKNOWN
        if T.t(v) == want:
            return GOOD
        return BAD

    def is_copy_into(self, fr, i, addr, src):
        """copy(D.F, S.F) calls"""
        n = self.p.cname(i)
        return i.op == "call" and len(i.args) >= 2 and (n + "!") in self.copiers and \
            fr.T.t(i.args[0]) == ("ld", addr) and fr.T.t(i.args[1]) == ("ld", src)

    # ------------------------------------------------ element loops
    def bound_of(self, fr, l, iv):
        """(init term, step, bound term, strict) of the loop on iv, None if not of that form"""
        f, T = fr.f, fr.T
        init, step = l.ivs[iv]
        conds = []
        for b, s in l.exits():
            if noreturn(s):
                continue
            t = b.insts[-1]
            if t.op != "br" or len(t.succ) != 2:
                return None
            conds.append((b, atom(T, f, t.d["cond"], f.blocks[t.succ[0]].id in l.blocks)))
        if len(conds) != 1:
            return ("exits", len(conds), [b for b, a in conds])
        b, at = conds[0]
        if not at:
            return None
        key, truth = at[0]
        me = ("iv", fr.chain, iv)
        top = b is l.header
        lo = T.t(init)

        def off(t):
            """c when t is iv + c"""
            if t == me:
                return 0
            if t[0] == "add" and t[1] == me and t[2][0] == "c":
                return t[2][1]
            return None
        if step > 0:
            hi = None
            if key[0] == "lt" and truth and off(key[1]) is not None:
                hi = mkadd(key[2], ("c", -off(key[1])))
            elif key[0] == "lt" and not truth and off(key[2]) is not None:
                hi = mkadd(key[1], ("c", 1 - off(key[2])))
            elif key[0] == "eq" and not truth and step == 1:
                if off(key[1]) is not None:
                    hi = mkadd(key[2], ("c", -off(key[1])))
                elif off(key[2]) is not None:
                    hi = mkadd(key[1], ("c", -off(key[2])))
            if hi is None:
                return None
            if not top:
                hi = mkadd(hi, ("c", step))
            return ("range", lo, step, hi)
        if step == -1 and top:
            hi = mkadd(lo, ("c", 1))
            if key[0] == "lt" and truth and off(key[2]) is not None:
                return ("range", mkadd(key[1], ("c", 1 - off(key[2]))), 1, hi)
            if key[0] == "lt" and not truth and off(key[1]) is not None:
                return ("range", mkadd(key[2], ("c", -off(key[1]))), 1, hi)
            if key[0] == "eq" and not truth and off(key[1]) is not None:
                return ("range", mkadd(key[2], ("c", 1 - off(key[1]))), 1, hi)
        return None

    def loops_over(self, fr, counts, inner_events, mk):
        """loops in which inner_events (for the element at the loop's index) happen for every element.
        returns (good headers, reasons why others are not)"""
        f = fr.f
        good, bad = {}, []
        for l in loops(f).values():
            for iv in l.ivs:
                for c in (0, -1):
                    at = mkadd(("iv", fr.chain, iv), ("c", c))
                    ev, hd, reasons = inner_events(at, l)
                    if ev or hd:
                        break
                    if c == 0:
                        bad += reasons
                if not ev and not hd:
                    continue
                addr, cnts = mk(at)
                r = self.bound_of(fr, l, iv)
                if r is not None and r[0] == "range":
                    r = ("range", mkadd(r[1], ("c", c)), r[2], mkadd(r[3], ("c", c)))
                if r is None:
                    good[l.header.id] = UNKNOWN
                    continue
                if r[0] == "exits":
                    bad.append("the loop at line %d can be left early" % line(l.header))
                    continue
                _, init, step, bound = r
                if init != ("c", 0) and init[0] == "c":
                    bad.append("the loop at line %d starts at %s" % (line(l.header), show(init)))
                    continue
                if step != 1:
                    bad.append("the loop at line %d skips elements" % line(l.header))
                    continue
                if bound not in counts:
                    if bound[0] in ("ld", "add", "c", "sub") and (bound[0] != "ld" or bound[1][0] == "fld"):
                        bad.append("the loop at line %d runs to %s, not to %s" % (line(l.header), show(bound), show(counts[0])))
                        continue
                    good[l.header.id] = UNKNOWN
                    continue

                # every iteration
                def stop(b, s, l=l):
                    if s is l.header:
                        return "fail"
                    if s.id not in l.blocks:
                        return "leave"
                    return None
                e = self.search(fr, addr, cnts, lambda i: True if i in ev else False, set(hd), start=l.header, stop=stop)
                if e is not None:
                    bad.append("the loop at line %d skips elements on some path" % line(l.header))
                    continue
                good[l.header.id] = GOOD
        return good, bad


def line(b):
    for i in b.insts:
        if i.loc:
            return i.line()
    return 0
