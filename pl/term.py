"""Symbolic terms of SSA values with parameters bound to the caller's terms,
natural loops with their induction variables, and a path search that correlates
branch conditions.  Used by the object life-cycle properties."""
from .expr import CASTS
from .dom import dominates, rpo, idoms


# ---------------------------------------------------------------- loops
class Loop:
    def __init__(self, f, header):
        self.f, self.header, self.blocks, self.latches = f, header, {header.id}, []
        self.ivs = {}

    def exits(self):
        for b in self.blocks:
            for s in self.f.blocks[b].succ:
                if s.id not in self.blocks:
                    yield self.f.blocks[b], s


def noreturn(b):
    return any(i.op == "call" and i.d.get("noreturn") for i in b.insts) or (b.insts and b.insts[-1].op == "unreachable")


def loops(f):
    if getattr(f, "_loops", None) is not None:
        return f._loops
    L = {}
    for b in rpo(f):
        for s in b.succ:
            if dominates(f, s, b):
                l = L.setdefault(s.id, Loop(f, s))
                l.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x.id in l.blocks:
                        continue
                    l.blocks.add(x.id)
                    work += x.pred
    for l in L.values():
        for i in l.header.insts:
            if i.op != "phi":
                continue
            init, step, ok = None, None, True
            for v, blk in i.d["inc"]:
                if blk in l.blocks:
                    s = add_const(f, v, i.id)
                    if s is None or (step is not None and s != step):
                        ok = False
                    step = s
                else:
                    if init is not None and init != v:
                        ok = False
                    init = v
            if ok and step is not None and init is not None:
                l.ivs[i.id] = (init, step)
    f._loops = L
    return L


def add_const(f, v, phi):
    """c when v == phi + c"""
    c = 0
    n = 0
    while isinstance(v, int) and n < 8:
        if v == phi:
            return c
        i = f.insts[v]
        if i.op in CASTS:
            v = i.ops[0]
        elif i.op == "add" and str(i.ops[1]).startswith("c:"):
            c += int(i.ops[1][2:])
            v = i.ops[0]
        elif i.op == "add" and str(i.ops[0]).startswith("c:"):
            c += int(i.ops[0][2:])
            v = i.ops[1]
        elif i.op == "sub" and str(i.ops[1]).startswith("c:"):
            c -= int(i.ops[1][2:])
            v = i.ops[0]
        else:
            return None
        n += 1
    return None


def iv_of(f, v):
    """loop whose induction variable v is"""
    i = f.insts[v]
    if i.op != "phi":
        return None
    l = loops(f).get(i.bb.id)
    if l and v in l.ivs:
        return l
    return None


def innermost(f, b):
    best = None
    for l in loops(f).values():
        if b.id in l.blocks and (best is None or len(l.blocks) < len(best.blocks)):
            best = l
    return best


# ---------------------------------------------------------------- terms
NULL = ("null",)


def const(n):
    return ("c", n)


def mkadd(a, b):
    if a[0] == "c" and b[0] == "c":
        return ("c", a[1] + b[1])
    if a[0] == "c":
        a, b = b, a
    if b[0] == "c":
        if b[1] == 0:
            return a
        if a[0] == "add" and a[2][0] == "c":
            return mkadd(a[1], ("c", a[2][1] + b[1]))
        return ("add", a, b)
    if repr(b) < repr(a):
        a, b = b, a
    return ("add", a, b)


class Terms:
    def __init__(self, f, bind=None, chain=(), sub=None):
        self.f, self.bind, self.chain = f, bind or {}, chain
        self.sub = sub or {}       # instruction id -> term (results fixed by the caller)
        self.cache = {}

    def t(self, v, depth=0):
        if isinstance(v, dict):
            if v.get("ce") == "getelementptr":
                return self.gep(self.t(v["ops"][0], depth + 1), v["path"], depth)
            if v.get("ops"):
                return self.t(v["ops"][0], depth + 1)
            return ("x", str(v))
        if isinstance(v, str):
            if v.startswith("a") and v[1:].isdigit():
                return self.bind.get(int(v[1:]), ("p", int(v[1:])))
            if v.startswith("c:"):
                try:
                    return ("c", int(v[2:]))
                except ValueError:
                    return ("x", v)
            if v == "null":
                return NULL
            return ("x", v)
        if v in self.sub:
            return self.sub[v]
        if v in self.cache:
            return self.cache[v]
        self.cache[v] = ("v", self.chain, v)
        r = self.inst(self.f.insts[v], depth)
        self.cache[v] = r
        return r

    def gep(self, base, path, depth):
        r = base
        for k, st in enumerate(path):
            if "f" in st:
                r = ("fld", r, st["f"])
            else:
                if k == 0 and st["i"] == "c:0":
                    continue
                r = ("idx", r, self.t(st["i"], depth + 1))
        return r

    def inst(self, i, depth):
        op = i.op
        leaf = ("v", self.chain, i.id)
        if depth > 40:
            return leaf
        if op in CASTS:
            return self.t(i.ops[0], depth + 1)
        if op == "load":
            return ("ld", self.t(i.ops[0], depth + 1))
        if op == "getelementptr":
            return self.gep(self.t(i.ops[0], depth + 1), i.d["path"], depth)
        if op == "add":
            return mkadd(self.t(i.ops[0], depth + 1), self.t(i.ops[1], depth + 1))
        if op == "sub":
            a, b = self.t(i.ops[0], depth + 1), self.t(i.ops[1], depth + 1)
            if b[0] == "c":
                return mkadd(a, ("c", -b[1]))
            return ("sub", a, b)
        if op in ("mul", "shl", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "ashr", "lshr"):
            a, b = self.t(i.ops[0], depth + 1), self.t(i.ops[1], depth + 1)
            if op == "shl" and b[0] == "c":
                op, b = "mul", ("c", 1 << b[1])
            if op in ("mul", "and", "or", "xor") and repr(b) < repr(a):
                a, b = b, a
            return (op, a, b)
        if op == "icmp":
            return ("icmp", i.d["pred"], self.t(i.ops[0], depth + 1), self.t(i.ops[1], depth + 1))
        if op == "select":
            if isinstance(i.ops[0], int) and self.f.insts[i.ops[0]].op == "icmp":
                m = self.mm(self.f.insts[i.ops[0]], self.t(i.ops[1], depth + 1), self.t(i.ops[2], depth + 1), depth)
                if m is not None:
                    return m
            return ("sel",) + tuple(self.t(o, depth + 1) for o in i.ops)
        if op == "phi":
            l = iv_of(self.f, i.id)
            if l is not None:
                return ("iv", self.chain, i.id)
            m = self.minmax(i, depth)
            if m is not None:
                return m
            vs = {self.t(v, depth + 1) for v, b in i.d["inc"] if v != i.id}
            vs.discard(leaf)
            if len(vs) == 1:
                return vs.pop()
            return leaf
        if op == "alloca":
            return ("loc", self.chain, i.id)
        if op == "call":
            if i.callee in ("malloc", "calloc", "realloc", "_Znwm", "_Znam"):
                return ("new", self.chain, i.id)
            return ("call", i.callee or "?", self.chain, i.id) + tuple(self.t(a, depth + 1) for a in i.args)
        return leaf


def minmax(self, i, depth):
    """max/min written as a conditional"""
    if len(i.d["inc"]) != 2:
        return None
    f = self.f
    x = idoms(f).get(i.bb.id)
    if x is None or x == i.bb.id:
        return None
    br = f.blocks[x].insts[-1]
    if br.op != "br" or len(br.succ) != 2 or not isinstance(br.d["cond"], int) or f.insts[br.d["cond"]].op != "icmp":
        return None
    tv = fv = None
    for v, b in i.d["inc"]:
        for k, s in enumerate(br.succ):
            if (b == x and s == i.bb.id) or (s != i.bb.id and dominates(f, f.blocks[s], f.blocks[b])):
                if k == 0:
                    tv = v
                else:
                    fv = v
    if tv is None or fv is None:
        return None
    return self.mm(f.insts[br.d["cond"]], self.t(tv, depth + 1), self.t(fv, depth + 1), depth)


def mm(self, c, tv, fv, depth):
    a, b = self.t(c.ops[0], depth + 1), self.t(c.ops[1], depth + 1)
    p = c.d["pred"][1:]
    if {tv, fv} != {a, b} or p not in ("gt", "ge", "lt", "le"):
        return None
    big = (p in ("gt", "ge")) == (tv == a)
    return ("max" if big else "min",) + tuple(sorted((a, b), key=repr))


Terms.minmax = minmax
Terms.mm = mm


def subterm(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(subterm(x, old, new) if isinstance(x, tuple) else x for x in t)
    return t


def contains(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(contains(y, x) for y in t if isinstance(y, tuple))


def fields(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and t[0] == "fld":
            out.add(t[2])
        for y in t:
            if isinstance(y, tuple):
                fields(y, out)
    return out


def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "null":
        return "NULL"
    if k == "obj":
        return t[1]
    if k == "p":
        return "arg%d" % t[1]
    if k == "ld":
        return show(t[1])
    if k == "fld":
        return show(t[1]) + "->" + t[2].split(".", 1)[-1]
    if k == "idx":
        return show(t[1]) + "[" + show(t[2]) + "]"
    if k == "add":
        return "%s + %s" % (show(t[1]), show(t[2])) if not (t[2][0] == "c" and t[2][1] < 0) else "%s - %d" % (show(t[1]), -t[2][1])
    if k == "iv":
        return "i"
    if k == "call":
        return "%s(...)" % t[1]
    if k in ("mul", "sub"):
        return "(%s %s %s)" % (show(t[1]), {"mul": "*", "sub": "-"}[k], show(t[2]))
    return "?"


# ---------------------------------------------------------------- conditions
def atom(T, f, c, truth):
    """[(key, truth)] facts that follow from branch condition c being truth"""
    if not isinstance(c, int):
        return []
    i = f.insts[c]
    if i.op == "icmp":
        p = i.d["pred"]
        a, b = T.t(i.ops[0]), T.t(i.ops[1])
        # (zext i1 x) != 0
        if p in ("eq", "ne") and b == ("c", 0) and a[0] == "icmp":
            return norm(a[1], a[2], a[3], truth ^ (p == "eq"))
        return norm(p, a, b, truth)
    if i.op == "xor" and i.ops[1] in ("c:-1", "c:1"):
        return atom(T, f, i.ops[0], not truth)
    t = T.t(c)
    if i.op in ("trunc",):
        return norm("ne", t, ("c", 0), truth)
    return [(("b", t), truth)]


def norm(p, a, b, truth):
    if p == "ne":
        p, truth = "eq", not truth
    if p == "eq":
        if a == NULL or a[0] == "c":
            a, b = b, a
        return [(("eq", a, b), truth)]
    s = p[1:]
    if s == "gt":
        a, b, s = b, a, "lt"
    elif s == "ge":
        s, truth = "lt", not truth
    elif s == "le":
        a, b, s, truth = b, a, "lt", not truth
    return [(("lt", a, b), truth)]


def implied_empty(key, truth, addr, counts):
    """does the fact say that the pointer at addr is null, or that it has no elements?"""
    if key[0] == "eq" and key[1] == ("ld", addr) and key[2] in (NULL, ("c", 0)) and truth:
        return True
    for c in counts:
        if key[0] == "eq" and key[1] == c and key[2] in (("c", 0), NULL) and truth:
            return True
        if key[0] == "lt":
            # c < k false/true forms
            if key[1] == c and key[2][0] == "c" and key[2][1] <= 1 and truth:
                return True
            if key[2] == c and key[1][0] == "c" and key[1][1] >= 0 and not truth:
                return True
    return False
