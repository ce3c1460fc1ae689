"""Operations on unions of constraint systems (a list linked by `next`): on every
path to a normal return the whole list has been dealt with."""
import re
from .term import Terms, loops, atom, noreturn, contains, NULL
from .dom import dominates

NEXT = "pluto_constraints.next"
PRINT = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fwrite", "fflush", "putc"}


def nxt(t):
    return ("ld", ("fld", t, NEXT))


def params(f):
    """the parameters that are constraint systems"""
    out = []
    for k in range(len(f.params)):
        ty = f.vtype("a%d" % k) or ""
        if re.sub(r"\b(const|struct)\b|\s", "", ty) in ("pluto_constraints*", "PlutoConstraints*"):
            out.append(k)
    return out


class Chain:
    def __init__(self, prog, E, known=()):
        self.p, self.E = prog, E
        self.known = set(known)      # operations of their own, never part of another one
        self.T = {}
        self.paths = 0

    def terms(self, f):
        if f.name not in self.T:
            self.T[f.name] = Terms(f)
        return self.T[f.name]

    def walks(self, f, k):
        """edges that leave a loop over the list that starts at the parameter when the list is at its end"""
        T = self.terms(f)
        out = {}
        for l in loops(f).values():
            for i in l.header.insts:
                if i.op != "phi" or i.ty != "ptr":
                    continue
                ini = {T.t(v) for v, b in i.d["inc"] if b not in l.blocks}
                ins = {T.t(v) for v, b in i.d["inc"] if b in l.blocks}
                me = ("v", T.chain, i.id)
                if not ini or not all(x in (("p", k), nxt(("p", k))) for x in ini) or ins != {nxt(me)}:
                    continue
                for eb, s in l.exits():
                    t = eb.insts[-1]
                    if t.op != "br" or len(t.succ) != 2:
                        continue
                    for n in (0, 1):
                        for key, tr in atom(T, f, t.d["cond"], n == 0):
                            if t.succ[n] == s.id and key[0] == "eq" and key[2] in (NULL, ("c", 0)) and tr:
                                if key[1] == me:
                                    out[(eb.id, s.id)] = "end"
                                elif key[1] == nxt(me):
                                    # only the last one is left: it has been treated if the test follows the body
                                    out[(eb.id, s.id)] = "end" if eb in l.latches else "last"
        return out

    def quiet(self, f, T, i, P):
        """an instruction that does nothing to anything"""
        if i.op == "store":
            a = T.t(i.ops[1])
            while a[0] in ("fld", "idx"):
                a = a[1]
            return a[0] == "loc"
        if i.op == "call":
            c = i.callee or "?"
            if c.startswith("llvm."):
                return True
            g = self.p.callee(i)
            if g is None or g.decl:
                return False
            e = self.E.eff.get(g.name)
            return e is not None and not e.writes and not e.frees and c not in PRINT
        return True

    def check(self, f, k, ops, final=(), tail=False, depth=0, memo=None):
        """[] when the whole list given as parameter k is passed on to one of the operations `ops` (or walked)
        on every path; otherwise [(ret, reason)].  final: results that need no more disjuncts.  tail: only
        the end of the list is looked for."""
        memo = {} if memo is None else memo
        if (f.name, k) in memo:
            return memo[(f.name, k)]
        memo[(f.name, k)] = []
        T = self.terms(f)
        P = ("p", k)
        rest = nxt(P)
        heads = self.walks(f, k)
        bad = []
        track = tracked(f) if final else {}
        start = (0, frozenset(), True, ())
        seen, work = {start: None}, [start]
        while work:
            st = work.pop()
            b, facts, idle, env = f.blocks[st[0]], set(st[1]), st[2], dict(st[3])
            self.paths += 1
            if noreturn(b):
                continue
            done = False
            for i in b.insts:
                if i.op == "call":
                    for a, v in enumerate(i.args):
                        t = T.t(v)
                        if t not in (P, rest):
                            continue
                        g = self.p.callee(i)
                        if g is None or g.decl or not g.blocks:
                            continue
                        if g.short in ops and (t == rest or g is not f):
                            done = True
                        elif depth < 3 and g is not f and t in (P, rest) and self.delegate(g, a) \
                                and not self.check(g, a, ops, final, tail, depth + 1, memo):
                            done = True
                    if done:
                        break
                    if not self.quiet(f, T, i, P):
                        idle = False
                    g = self.p.callee(i)
                    if g is not None and not g.decl and g.name in self.E.eff and any(NEXT in w for w in self.E.eff[g.name].writes):
                        facts = set()
                elif i.op == "store":
                    if not self.quiet(f, T, i, P):
                        idle = False
                    a = T.t(i.ops[1])
                    if a[0] == "fld" and a[2] == NEXT:
                        facts = {x for x in facts if x[0][1] != ("ld", a)}
                elif i.op == "ret":
                    if idle and not any(x[0] == "cond" for x in facts) and not i.ops:
                        done = True      # nothing to be done for any of them
                        break
                    if i.ops and value(f, i.ops[0], env) in final:
                        done = True
                        break
                    bad.append(i)
            if done or bad:
                if bad:
                    break
                continue
            t = b.insts[-1]
            for n, s in enumerate(b.succ):
                nf = set(facts)
                ne = dict(env)
                ok = True
                if t.op == "br" and len(t.succ) == 2:
                    c = known(f, t.d["cond"], env)
                    if c is not None and c != (n == 0):
                        continue
                    if final:
                        learn(f, t.d["cond"], n == 0, ne)
                    for key, tr in atom(T, f, t.d["cond"], n == 0):
                        if key[0] == "eq" and key[2] in (NULL, ("c", 0)) and key[1][0] == "ld" and key[1][1][0] == "fld" and key[1][1][2] == NEXT:
                            if (key, not tr) in nf:
                                ok = False
                            nf.add((key, tr))
                            if key[1] == rest and tr:
                                ok = False      # no more disjuncts on this path
                        elif key == ("eq", P, NULL):
                            ok = ok and not tr  # there is no system at all
                        elif contains(key, P) and not any("options" in x for x in strs(key)):
                            nf.add(("cond",))
                e = heads.get((b.id, s.id))
                if e == "end" or (e == "last" and tail):
                    ok = False
                if not ok:
                    continue
                for ph in track.get(s.id, ()):
                    for v, blk in ph.d["inc"]:
                        if blk == b.id:
                            ne[ph.id] = value(f, v, env)
                ns = (s.id, frozenset(nf), idle, tuple(sorted(ne.items())))
                if ns not in seen:
                    seen[ns] = st
                    work.append(ns)
        memo[(f.name, k)] = bad
        return bad

    def delegate(self, g, a):
        return a in params(g) and g.short not in self.known and returns(g)

    def recursions(self, f, k, ops):
        """calls that pass the rest of the list on"""
        T = self.terms(f)
        rest = nxt(("p", k))
        for i in f.calls():
            g = self.p.callee(i)
            if g is not None and g.short in ops:
                for a, v in enumerate(i.args):
                    if T.t(v) == rest:
                        yield i, g, a


def tracked(f):
    """phis that decide what is returned: {block: [phi]}"""
    out, seen = {}, set()
    work = [i.ops[0] for i in f.allinsts() if i.op == "ret" and i.ops]
    while work:
        v = work.pop()
        if not isinstance(v, int) or v in seen:
            continue
        seen.add(v)
        i = f.insts[v]
        if i.op == "phi":
            out.setdefault(i.bb.id, []).append(i)
            work += [x for x, b in i.d["inc"]]
        elif i.op in ("zext", "sext", "trunc"):
            work.append(i.ops[0])
        elif i.op in ("select", "xor", "icmp"):
            work += [x for x in i.ops if isinstance(x, int)]
    return out


def value(f, v, env):
    n = 0
    while isinstance(v, int) and n < 20:
        if v in env:
            return env[v]
        i = f.insts[v]
        n += 1
        if i.op == "select":
            c = known(f, i.ops[0], env)
            if c is None:
                return "v:%d" % v
            v = i.ops[1] if c else i.ops[2]
            continue
        if i.op in ("icmp", "xor"):
            c = known(f, v, env)
            return "v:%d" % v if c is None else "c:1" if c else "c:0"
        if i.op not in ("zext", "sext", "trunc"):
            return "v:%d" % v
        v = i.ops[0]
    return {"c:false": "c:0", "c:true": "c:1"}.get(str(v), str(v))


def learn(f, c, truth, env):
    """what a branch says about a value"""
    n = 0
    while isinstance(c, int) and n < 20:
        n += 1
        i = f.insts[c]
        if i.op in ("trunc", "zext", "sext"):
            c = i.ops[0]
        elif i.op == "xor" and i.ops[1] in ("c:true", "c:1", "c:-1"):
            c, truth = i.ops[0], not truth
        elif i.op == "icmp" and i.d["pred"] in ("eq", "ne") and i.ops[1] in ("c:0", "c:false", "null"):
            c, truth = i.ops[0], truth == (i.d["pred"] == "ne")
        else:
            if not env.get(c, "v:").startswith("c:"):
                env[c] = "c:nz" if truth else "c:0"
            return


def known(f, c, env):
    """truth of a condition on a value that is followed"""
    if not isinstance(c, int):
        return None
    i = f.insts[c]
    if c in env and env[c].startswith("c:"):
        return env[c] != "c:0"
    if i.op in ("trunc", "phi", "zext", "load", "call"):
        x = value(f, c, env)
        return x != "c:0" if x.startswith("c:") else None
    if i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
        a, b = value(f, i.ops[0], env), value(f, i.ops[1], env)
        if "c:nz" in (a, b):
            return (i.d["pred"] == "ne") if "c:0" in (a, b) else None
        if a.startswith("c:") and b.startswith("c:"):
            return (a == b) == (i.d["pred"] == "eq")
    if i.op == "xor":
        x = known(f, i.ops[0], env)
        return None if x is None else not x
    return None


def returns(g):
    """can the function return at all?"""
    seen, work = set(), [g.blocks[0]]
    while work:
        b = work.pop()
        if b.id in seen or noreturn(b):
            continue
        seen.add(b.id)
        if b.insts and b.insts[-1].op == "ret":
            return True
        work += b.succ
    return False


def strs(t):
    if isinstance(t, str):
        yield t
    elif isinstance(t, tuple):
        for x in t:
            yield from strs(x)
