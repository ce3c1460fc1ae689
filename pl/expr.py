"""Canonical expressions of SSA values, used to correlate branch conditions and
to compare code up to renaming/re-ordering.  Two loads are the same expression
when they load the same access path; facts about loads are dropped when a store
or a call may write that field."""

CASTS = {"zext", "sext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr"}
COMM = {"add", "mul", "and", "or", "xor"}


class ExprCtx:
    def __init__(self, fn):
        self.fn = fn
        self.cache = {}

    def expr(self, v, depth=0):
        """(text, leaves frozenset of inst ids, tags frozenset of field names)"""
        if isinstance(v, str):
            return (v, frozenset(), frozenset())
        if isinstance(v, dict):
            return (str(v), frozenset(), frozenset())
        if v in self.cache:
            return self.cache[v]
        i = self.fn.insts[v]
        leaf = ("%" + str(v), frozenset([v]), frozenset())
        if depth > 10:
            return leaf
        r = leaf
        op = i.op
        if op in CASTS:
            r = self.expr(i.ops[0], depth + 1)
        elif op == "load":
            t, l, g = self.expr(i.ops[0], depth + 1)
            r = ("*(" + t + ")", l, g | frozenset([self.tag(i.ops[0])]))
        elif op == "getelementptr":
            t, l, g = self.expr(i.ops[0], depth + 1)
            for k, st in enumerate(i.d["path"]):
                if "f" in st:
                    t += "." + st["f"]
                else:
                    if k == 0 and st["i"] == "c:0":
                        continue
                    t2, l2, g2 = self.expr(st["i"], depth + 1)
                    t += "[" + t2 + "]"
                    l |= l2
                    g |= g2
            r = (t, l, g)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "ashr", "lshr", "and", "or", "xor",
                    "fadd", "fsub", "fmul", "fdiv"):
            a = self.expr(i.ops[0], depth + 1)
            b = self.expr(i.ops[1], depth + 1)
            if op in COMM and b[0] < a[0]:
                a, b = b, a
            r = ("(%s %s %s)" % (op, a[0], b[0]), a[1] | b[1], a[2] | b[2])
        elif op == "icmp":
            k = self.cond(v, depth + 1)
            if k:
                r = (("!" if k[1] else "") + k[0], k[2], k[3])
        elif op == "alloca":
            r = ("&%" + str(v), frozenset(), frozenset())
        elif op == "fneg":
            a = self.expr(i.ops[0], depth + 1)
            r = ("(neg %s)" % a[0], a[1], a[2])
        elif op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            a = self.expr(i.ops[0], depth + 1)
            r = ("(%s %s)" % (op, a[0]), a[1], a[2])
        elif op == "call" and i.callee in ("strlen", "abs", "llabs", "llvm.abs.i64"):
            a = self.expr(i.args[0], depth + 1)
            r = ("%s(%s)" % (i.callee, a[0]), a[1], a[2])
        self.cache[v] = r
        return r

    def tag(self, addr):
        """field tag of an address, for kills"""
        if isinstance(addr, int):
            i = self.fn.insts[addr]
            if i.op == "getelementptr":
                last = None
                idx = False
                for k, st in enumerate(i.d["path"]):
                    if "f" in st:
                        last = st["f"]
                        idx = False
                    elif not (k == 0 and st["i"] == "c:0"):
                        idx = True
                if last and not idx:
                    return last
                if last and idx:
                    return last + "[]"
                # element of a loaded pointer: name the field the array hangs off
                b = i.ops[0]
                n = 0
                while isinstance(b, int) and n < 6:
                    bi = self.fn.insts[b]
                    if bi.op == "load":
                        t = self.tag(bi.ops[0])
                        return t + "[]"
                    if bi.op == "getelementptr":
                        return self.tag(b) + "[]"
                    if bi.op == "alloca":
                        return "m%d" % b
                    if bi.op in CASTS:
                        b = bi.ops[0]
                        n += 1
                        continue
                    return "%%%d[]" % b
                return str(b) + "[]"
            if i.op == "alloca":
                return "m%d" % addr
            if i.op in CASTS:
                return self.tag(i.ops[0])
            if i.op == "load":
                return self.tag(i.ops[0]) + "[]"
            return "%%%d[]" % addr
        if isinstance(addr, str):
            return addr + "[]" if addr.startswith("a") else addr
        return "?"

    def cond(self, v, depth=0):
        """(key, negated, leaves, tags) of an i1 value"""
        if not isinstance(v, int):
            return None
        i = self.fn.insts[v]
        op = i.op
        if op == "icmp":
            p = i.d["pred"]
            a, b = i.ops
            # (zext i1 x) != 0  ->  x
            if p in ("ne", "eq") and b == "c:0" and isinstance(a, int):
                ai = self.fn.insts[a]
                n = 0
                while ai.op in ("zext", "sext") and n < 4:
                    if ai.d.get("sty") == "i1":
                        k = self.cond(ai.ops[0], depth + 1)
                        if k:
                            return (k[0], k[1] ^ (p == "eq"), k[2], k[3])
                        break
                    if not isinstance(ai.ops[0], int):
                        break
                    ai = self.fn.insts[ai.ops[0]]
                    n += 1
            ea, eb = self.expr(a, depth + 1), self.expr(b, depth + 1)
            neg = False
            if p == "ne":
                p, neg = "eq", True
            if p == "eq":
                if eb[0] < ea[0] and not eb[0].startswith("c:") and eb[0] != "null":
                    ea, eb = eb, ea
                # a-b == 0 kept as is
            s = p[0] if p != "eq" else ""
            if p[1:] == "gt":
                ea, eb, p = eb, ea, s + "lt"
            elif p[1:] == "ge":
                p, neg = s + "lt", not neg
            elif p[1:] == "le":
                ea, eb, p, neg = eb, ea, s + "lt", not neg
            if p == "ult":
                p = "slt"
            return ("(%s %s %s)" % (p, ea[0], eb[0]), neg, ea[1] | eb[1], ea[2] | eb[2])
        if op == "xor" and i.ops[1] in ("c:-1", "c:1"):
            k = self.cond(i.ops[0], depth + 1)
            if k:
                return (k[0], not k[1], k[2], k[3])
        if op == "trunc":
            e = self.expr(i.ops[0], depth + 1)
            return ("(eq %s c:0)" % e[0], True, e[1], e[2])
        if op == "freeze":
            return self.cond(i.ops[0], depth + 1)
        e = self.expr(v, depth + 1)
        return (e[0], False, e[1] | frozenset([v]), e[2])
