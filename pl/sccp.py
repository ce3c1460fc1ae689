"""Whole-program conditional constant propagation under assumptions on option
fields: decides which code is reachable from the given entry points when e.g.
options->silent is 1 and options->debug is 0.  Nothing is executed; joins are
over all calling contexts."""

TOP, BOT = ("top",), ("bot",)


def meet(a, b):
    if a == TOP:
        return b
    if b == TOP:
        return a
    return a if a == b else BOT


def cv(n):
    return ("c", n)


def stops(b):
    return any(i.op == "call" and i.d.get("noreturn") for i in b.insts)


class Sccp:
    def __init__(self, prog, assume, entries, skip_doomed=False):
        """assume: field name -> constant (e.g. plutoOptions.silent -> 1)"""
        self.p = prog
        self.assume = assume
        self.params = {}     # fn -> [lattice]
        self.ret = {}        # fn -> lattice
        self.live = {}       # fn -> set of live block ids
        self.live_edges = {}
        self.vals = {}
        self.work = []
        self.callers = {}
        self._doomed = {}
        self.skip_doomed = skip_doomed
        for f in entries:
            self.enter(f, [BOT] * len(f.params), None)
        while self.work:
            f = self.work.pop()
            self.run(f)

    def enter(self, f, args, caller):
        if f.decl:
            return
        old = self.params.get(f.name)
        if old is None:
            self.params[f.name] = list(args)
            self.ret.setdefault(f.name, TOP)
            self.live[f.name] = set()
            self.live_edges[f.name] = set()
            self.vals[f.name] = {}
            self.push(f)
        else:
            ch = False
            for k in range(len(old)):
                a = args[k] if k < len(args) else BOT
                m = meet(old[k], a)
                if m != old[k]:
                    old[k] = m
                    ch = True
            if ch:
                self.push(f)
        if caller is not None:
            self.callers.setdefault(f.name, set()).add(caller.name)

    def push(self, f):
        if f not in self.work:
            self.work.append(f)

    def val(self, f, v):
        if isinstance(v, int):
            return self.vals[f.name].get(v, TOP)
        if isinstance(v, str):
            if v.startswith("c:"):
                try:
                    return cv(int(v[2:]))
                except ValueError:
                    return BOT
            if v == "null":
                return BOT
            if v in ("undef", "poison"):
                return BOT
            if v.startswith("a") and v[1:].isdigit():
                return self.params[f.name][int(v[1:])]
        return BOT

    def option(self, f, addr):
        if isinstance(addr, int):
            i = f.insts[addr]
            if i.op == "getelementptr":
                last = None
                for st in i.d["path"]:
                    if "f" in st:
                        last = st["f"]
                    elif last is not None:
                        last = None
                if last in self.assume:
                    return cv(self.assume[last])
                if not i.d["path"] or all("i" in st and st["i"] == "c:0" for st in i.d["path"]):
                    return self.option(f, i.ops[0])
            if i.op in ("bitcast",):
                return self.option(f, i.ops[0])
        if isinstance(addr, dict):
            return None
        return None

    def run(self, f):
        live, edges, vals = self.live[f.name], self.live_edges[f.name], self.vals[f.name]
        # restart from scratch on params change: monotone, so just re-run to a fixpoint
        wl = [f.blocks[0]]
        live.add(0)
        n = 0
        changed = True
        while changed and n < 200:
            changed = False
            n += 1
            for b in f.blocks:
                if b.id not in live:
                    continue
                for i in b.insts:
                    new = self.eval(f, i)
                    if new is not None:
                        o = vals.get(i.id, TOP)
                        m = new if o == TOP else meet(o, new)
                        if m != o:
                            vals[i.id] = m
                            changed = True
                t = b.insts[-1]
                if t.op == "call" and t.d.get("noreturn"):
                    continue
                if any(i.op == "call" and i.d.get("noreturn") for i in b.insts):
                    continue
                succ = list(t.succ)
                if t.op == "br" and len(succ) == 2:
                    c = self.val(f, t.d["cond"])
                    if c == TOP:
                        succ = []
                    elif c[0] == "c":
                        succ = [succ[0] if c[1] != 0 else succ[1]]
                elif t.op == "switch":
                    c = self.val(f, t.d["cond"])
                    if c == TOP:
                        succ = []
                    elif c[0] == "c":
                        cs = t.d["cases"]
                        succ = [succ[1 + cs.index(c[1])] if c[1] in cs else succ[0]]
                for s in succ:
                    if (b.id, s) not in edges:
                        edges.add((b.id, s))
                        changed = True
                    if s in self.doomed(f):
                        continue
                    if s not in live:
                        live.add(s)
                        changed = True

    def doomed(self, f):
        """blocks from which no return can be reached (an abort is certain)"""
        d = self._doomed.get(f.name)
        if d is None:
            ok, work = set(), []
            for b in f.blocks:
                if b.insts[-1].op in ("ret", "resume") and not stops(b):
                    work.append(b)
            while work:
                b = work.pop()
                if b.id in ok:
                    continue
                ok.add(b.id)
                work += [p for p in b.pred if not stops(p)]
            d = self._doomed[f.name] = {b.id for b in f.blocks} - ok if self.skip_doomed else set()
        return d

    def eval(self, f, i):
        op = i.op
        if op == "phi":
            r = TOP
            for v, blk in i.d["inc"]:
                if (blk, i.bb.id) in self.live_edges[f.name]:
                    r = meet(r, self.val(f, v))
            return r
        if op == "load":
            o = self.option(f, i.ops[0])
            return o if o is not None else BOT
        if op == "call":
            # function pointers passed along are entered with unknown arguments
            for a in i.args:
                if isinstance(a, str) and a.startswith("f:"):
                    g = self.p.functions.get(a[2:])
                    if g is not None and not g.decl:
                        self.enter(g, [BOT] * len(g.params), f)
            g = self.p.callee(i)
            if g is not None and not g.decl:
                self.enter(g, [self.argval(f, a) for a in i.args[:len(g.params)]], f)
                r = self.ret.get(g.name, TOP)
                return r
            return BOT
        if op == "ret":
            if i.ops:
                v = self.val(f, i.ops[0])
                o = self.ret.get(f.name, TOP)
                m = meet(o, v)
                if m != o:
                    self.ret[f.name] = m
                    for c in self.callers.get(f.name, ()):
                        self.push(self.p.functions[c])
            else:
                if self.ret.get(f.name, TOP) == TOP:
                    self.ret[f.name] = BOT
                    for c in self.callers.get(f.name, ()):
                        self.push(self.p.functions[c])
            return None
        if op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            v = self.val(f, i.ops[0])
            if v[0] == "c":
                n = v[1]
                if op == "trunc" and i.ty == "i1":
                    n &= 1
                if op == "zext" and i.d.get("sty") == "i1":
                    n &= 1
                return cv(n)
            return v
        if op == "icmp":
            a, b = self.val(f, i.ops[0]), self.val(f, i.ops[1])
            if a == TOP or b == TOP:
                return TOP
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                pr = i.d["pred"]
                r = {"eq": x == y, "ne": x != y}.get(pr)
                if r is None:
                    if pr[0] == "u" and (x < 0 or y < 0):
                        return BOT
                    r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pr[1:]]
                return cv(1 if r else 0)
            return BOT
        if op in ("and", "or", "xor", "add", "sub", "mul"):
            a, b = self.val(f, i.ops[0]), self.val(f, i.ops[1])
            if op == "and" and (a == cv(0) or b == cv(0)):
                return cv(0)
            if op == "or" and i.ty == "i1" and (a in (cv(1), cv(-1)) or b in (cv(1), cv(-1))):
                return cv(1)
            if a == TOP or b == TOP:
                return TOP
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                if i.ty == "i1":
                    x, y = x & 1, y & 1
                n = {"and": x & y, "or": x | y, "xor": x ^ y, "add": x + y, "sub": x - y, "mul": x * y}[op]
                if i.ty == "i1":
                    n &= 1
                return cv(n)
            return BOT
        if op == "select":
            c = self.val(f, i.ops[0])
            if c == TOP:
                return TOP
            if c[0] == "c":
                return self.val(f, i.ops[1 if c[1] else 2])
            return meet(self.val(f, i.ops[1]), self.val(f, i.ops[2]))
        return BOT

    def argval(self, f, a):
        v = self.val(f, a)
        return BOT if v == TOP else v

    def is_live(self, inst):
        return inst.fn.name in self.live and inst.bb.id in self.live[inst.fn.name]

    def live_insts(self):
        for n, bl in self.live.items():
            f = self.p.functions[n]
            for b in f.blocks:
                if b.id in bl:
                    for i in b.insts:
                        yield i
                        if i.op == "call" and i.d.get("noreturn"):
                            break
