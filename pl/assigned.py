"""Local variables are assigned before they are read: scalars whose address is
taken (results returned through pointers), arrays on the stack and the records
handed to callbacks."""
from .term import noreturn
from .must import base_callee

SCALAR = {"i1", "i8", "i16", "i32", "i64", "ptr", "double", "float"}


class Assigned:
    def __init__(self, prog, fill):
        self.p, self.F, self.memo = prog, fill, {}

    def sets(self, g, k):
        """does the function store to *parameter k on every path to a normal return?"""
        key = (g.name, k)
        if key not in self.memo:
            self.memo[key] = True              # recursion: the other paths decide
            T = self.F.terms(g)
            here = {i.id for i in g.allinsts() if self.writes(T, i, ("p", k))}
            self.memo[key] = bool(here) and self.early(g, g.blocks[0], 0, here, lambda x: x.op == "ret") is None
        return self.memo[key]

    def reads(self, g, k):
        """does the function look at *parameter k before storing to it?"""
        key = ("r", g.name, k)
        if key not in self.memo:
            self.memo[key] = False
            T = self.F.terms(g)
            here = {i.id for i in g.allinsts() if self.writes(T, i, ("p", k))}
            self.memo[key] = self.early(g, g.blocks[0], 0, here, lambda x: self.looks(T, x, ("p", k))) is not None
        return self.memo[key]

    def writes(self, T, i, a):
        if i.op == "store":
            return not isinstance(i.ops[1], dict) and T.t(i.ops[1]) == a
        if i.op not in ("call", "invoke"):
            return False
        for k, x in enumerate(i.args):
            if not isinstance(x, dict) and T.t(x) == a:
                g = self.p.callee(i)
                if g is None or g.decl or not g.blocks:
                    return not base_callee(i).startswith("llvm.")
                if self.sets(g, k):
                    return True
        return False

    def looks(self, T, x, a):
        if x.op == "load":
            return not isinstance(x.ops[0], dict) and T.t(x.ops[0]) == a
        if x.op in ("call", "invoke"):
            g = self.p.callee(x)
            if g is not None and not g.decl and g.blocks:
                return any(not isinstance(y, dict) and T.t(y) == a and self.reads(g, k) for k, y in enumerate(x.args))
        return False

    def early(self, f, b, k, stop, wanted):
        """first wanted instruction on a path without a stop instruction"""
        seen, work = set(), [(b, k)]
        while work:
            b, k = work.pop()
            if (b.id, k) in seen or noreturn(b):
                continue
            seen.add((b.id, k))
            for x in b.insts[k:]:
                if wanted(x):
                    return x
                if x.id in stop:
                    break
            else:
                work += [(s, 0) for s in b.succ]
        return None

    def scalar(self, f, al):
        T = self.F.terms(f)
        a = T.t(al.id)
        if any(i.op == "store" and not isinstance(i.ops[0], dict) and T.t(i.ops[0]) == a for i in f.allinsts()):
            return None                        # its address is kept in a record
        stop = {i.id for i in f.allinsts() if self.writes(T, i, a)}
        return self.early(f, al.bb, al.idx + 1, stop, lambda x: self.looks(T, x, a))

    def record(self, f, al, fields):
        """(field, call) that gets the record before the field is set"""
        T = self.F.terms(f)
        a = T.t(al.id)
        for m in fields:
            fl = ("fld", a, m)
            stop = {i.id for i in f.allinsts() if i.op == "store" and not isinstance(i.ops[1], dict) and T.t(i.ops[1]) == fl
                    or i.op == "call" and base_callee(i) in ("memset", "bzero") and not isinstance(i.args[0], dict) and T.t(i.args[0]) == a}
            x = self.early(f, al.bb, al.idx + 1, stop, lambda x: x.op == "load" and not isinstance(x.ops[0], dict) and T.t(x.ops[0]) == fl or
                           x.op == "call" and any(not isinstance(y, dict) and T.t(y) == a for y in x.args) and base_callee(x) not in ("memset", "bzero")
                           and not base_callee(x).startswith("llvm."))
            if x is not None:
                yield m, x
