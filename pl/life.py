"""Object life cycles: which fields a function definitely sets on an object."""
from .expr import CASTS


def struct_of_path(path):
    for st in path:
        if "f" in st:
            return st["f"].rsplit(".", 1)
    return None


class MustInit:
    """must-write sets of fields, for parameters and for results"""

    def __init__(self, prog, structs):
        self.p = prog
        self.structs = structs              # name -> [field names]
        self.param = {}                     # (fn, k) -> frozenset | None (top)
        self.ret = {}                       # fn -> (struct, frozenset)
        self.fns = [f for f in prog.functions.values() if not f.decl]
        for rnd in range(8):
            ch = False
            for f in self.fns:
                for k, prm in enumerate(f.params):
                    if prm["ty"] == "ptr":
                        s = self.exits(f, "a%d" % k, None)
                        if self.param.get((f.name, k)) != s:
                            self.param[(f.name, k)] = s
                            ch = True
                if f.retty == "ptr":
                    s = self.result(f)
                    if self.ret.get(f.name) != s:
                        self.ret[f.name] = s
                        ch = True
            if not ch:
                break

    def aliases(self, f, root):
        al = {root}
        ch = True
        while ch:
            ch = False
            for i in f.allinsts():
                if i.id in al:
                    continue
                if i.op in CASTS and i.ops[0] in al or \
                        i.op == "phi" and all(v in al or v == i.id for v, b in i.d["inc"] if not isinstance(v, dict)) and i.d["inc"]:
                    al.add(i.id)
                    ch = True
                elif i.op == "call" and i.callee in ("memset", "memcpy", "llvm.memset.p0.i64") and i.args and i.args[0] in al:
                    al.add(i.id)
                    ch = True
        return al

    def gen(self, f, i, al, root):
        """fields of the object the instruction certainly sets"""
        if i.op == "store":
            a = i.ops[1]
            if isinstance(a, int) and f.insts[a].op == "getelementptr" and f.insts[a].ops[0] in al:
                fs = [st["f"] for st in f.insts[a].d["path"] if "f" in st]
                if fs:
                    return {fs[0]}
            elif a in al and i.d.get("vty"):
                # first member
                return {"@0"}
        elif i.op == "call":
            c = i.callee or ""
            if c.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")) or c in ("memset", "memcpy", "memmove", "bzero"):
                if i.args[0] in al:
                    return {"*"}
            g = self.p.callee(i)
            if g is not None and not g.decl:
                r = set()
                for k, a in enumerate(i.args):
                    if not isinstance(a, dict) and a in al and k < len(g.params):
                        r |= self.param.get((g.name, k)) or set()
                return r
        return None

    def exits(self, f, root, at):
        """intersection over all returns of the fields set; at: instruction that makes the object"""
        al = self.aliases(f, root)
        G = {}
        for b in f.blocks:
            s = set()
            for i in b.insts:
                if at is not None and i is at:
                    s = set()
                g = self.gen(f, i, al, root)
                if g:
                    s |= g
            G[b.id] = s
        TOP = None
        inn = {b.id: TOP for b in f.blocks}
        start = f.blocks[0] if at is None else at.bb
        out = {}
        work = [start.id]
        inn[start.id] = frozenset()
        seen = set()
        while work:
            x = work.pop()
            o = frozenset(inn[x] | G[x])
            if out.get(x) == o and x in seen:
                continue
            seen.add(x)
            out[x] = o
            b = f.blocks[x]
            if any(i.op == "call" and i.d.get("noreturn") for i in b.insts):
                continue
            for s in b.succ:
                if at is not None and s is start:
                    continue
                n = o if inn[s.id] is None else inn[s.id] & o
                if inn[s.id] is None or n != inn[s.id]:
                    inn[s.id] = n
                    work.append(s.id)
        r = None
        self.last_ret = None
        for b in f.blocks:
            if b.id in seen and b.insts[-1].op == "ret" and not any(i.op == "call" and i.d.get("noreturn") for i in b.insts):
                if at is not None and b.insts[-1].ops and not self.may_return(f, b.insts[-1].ops[0], al):
                    continue
                r = out[b.id] if r is None else r & out[b.id]
        return r if r is not None else frozenset()

    def may_return(self, f, v, al, seen=None):
        seen = seen or set()
        if isinstance(v, dict):
            return False
        if v in al:
            return True
        if isinstance(v, int) and v not in seen:
            seen.add(v)
            i = f.insts[v]
            if i.op == "phi":
                return any(self.may_return(f, x, al, seen) for x, b in i.d["inc"])
            if i.op in CASTS:
                return self.may_return(f, i.ops[0], al, seen)
        return False

    def makers(self, f):
        """(call, struct, fields known set by the maker) of objects f creates and may return"""
        for i in f.calls():
            if i.ty != "ptr":
                continue
            c = i.callee
            base = None
            if c in ("malloc", "calloc", "_Znwm"):
                base = {"*"} if c == "calloc" else set()
                st = self.kind(f, i)
                if st is None:
                    continue
            else:
                g = self.p.callee(i)
                if g is None or g.decl or not self.ret.get(g.name):
                    continue
                st, base = self.ret[g.name]
            al = self.aliases(f, i.id)
            if any(b.insts[-1].op == "ret" and b.insts[-1].ops and self.may_return(f, b.insts[-1].ops[0], al) for b in f.blocks):
                yield i, st, set(base)

    def kind(self, f, call):
        """struct type of a malloc'ed single object"""
        al = self.aliases(f, call.id)
        for i in f.allinsts():
            if i.op == "getelementptr" and i.ops[0] in al:
                s = struct_of_path(i.d["path"])
                if s and s[0] in self.structs and (len(i.d["path"]) < 2 or i.d["path"][0].get("i", "c:0") == "c:0"):
                    if self.p.sizes.get(s[0]) is None or call.args[-1] == "c:%d" % self.p.sizes[s[0]]:
                        return s[0]
        return None

    def result(self, f):
        """(struct, fields set) when f returns a new object"""
        r = None
        for i, st, base in self.makers(f):
            s = frozenset(base | self.exits(f, i.id, i))
            if r is None:
                r = (st, s)
            elif r[0] == st:
                r = (st, r[1] & s)
        return r

    def complete(self, st, s):
        if "*" in s:
            return []
        out = []
        for n, fld in enumerate(self.structs[st]):
            if st + "." + fld not in s and not (n == 0 and "@0" in s):
                out.append(fld)
        return out
