"""Passes over collections: loops whose induction variable indexes a collection
(the statements of a program, the rows of a matrix, a list with its count), the
part of the collection they cover, and what decides whether an element is acted
upon."""
from .term import Terms, loops, innermost, noreturn, atom, show, NULL, contains
from .expr import CASTS
from .dom import control_deps, dominates

# collection field -> (struct's count fields: the right one first)
COUNT = {
    "plutoProg.stmts": "nstmts", "plutoProg.deps": "ndeps", "plutoProg.transdeps": "ntransdeps", "plutoProg.params": "npar",
    "plutoProg.hProps": "num_hyperplanes", "plutoProg.data_names": "num_data",
    "statement.reads": "nreads", "statement.writes": "nwrites", "statement.iterators": "dim", "statement.is_orig_loop": "dim",
    "pLoop.stmts": "nstmts", "graph.vertices": "nVertices", "graph.sccs": "num_sccs", "scc.vertices": "size",
    "pluto_constraints.val": "nrows", "pluto_constraints.is_eq": "nrows", "pluto_matrix.val": "nrows",
    "remapping.stmt_inv_matrices": "nstmts", "remapping.stmt_divs": "nstmts",
}
# other extents of the same array
ALSO = {"pluto_matrix.val": ("alloc_nrows",), "pluto_constraints.val": ("alloc_nrows",), "pluto_constraints.is_eq": ("alloc_nrows",)}
ELEMS = ("plutoProg.stmts", "plutoProg.deps", "plutoProg.transdeps", "statement.reads", "statement.writes", "pLoop.stmts")
COUNTS = {}
for _f, _n in COUNT.items():
    COUNTS.setdefault(_f.split(".")[0], set()).add(_n)


def offset(t):
    if t[0] == "c":
        return ("c", 0), t[1]
    if t[0] == "add" and t[2][0] == "c":
        return t[1], t[2][1]
    return t, 0


class Pass:
    """a loop over a collection"""

    def __init__(self, f, l, iv, init, step, coll, addr):
        self.f, self.l, self.iv, self.init, self.step, self.coll, self.addr = f, l, iv, init, step, coll, addr
        self.offs = set()
        self.first = self.bound = None      # (term, constant)

    def where(self):
        return self.l.header.insts[-1].where()


def collection(T, f, base):
    """(name, place) of the collection a pointer value is the array of"""
    if base[0] == "ld" and base[1][0] == "fld" and base[1][2] in COUNT:
        return base[1][2], base[1]
    return None


def tests(T, f, l, iv):
    """facts about the induction variable that hold while the loop goes on, with the shift of tests made after the body"""
    for eb, s in l.exits():
        if noreturn(s) or noreturn(eb):
            continue
        t = eb.insts[-1]
        if t.op != "br" or len(t.succ) != 2:
            continue
        if eb is l.header or top(f, l, eb):
            shift = 0
        elif eb in l.latches:
            shift = l.ivs[iv][1]
        else:
            continue
        for key, truth in atom(T, f, t.d["cond"], t.succ[0] != s.id):
            if key[0] in ("lt", "eq"):
                (a, ca), (b, cb) = offset(key[1]), offset(key[2])
                if a == ("iv", (), iv):
                    yield key[0], "l", b, cb - ca, truth, shift
                elif b == ("iv", (), iv):
                    yield key[0], "r", a, ca - cb, truth, shift


def top(f, l, eb):
    """nothing happens between the header and this test"""
    seen, work = set(), [eb]
    while work:
        b = work.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        if any(i.op == "store" or i.op == "call" and not (i.callee or "").startswith("llvm.") for i in b.insts):
            return False
        if b is not l.header:
            if b.id not in l.blocks:
                return False
            work += b.pred
    return True


def limit(T, f, l, iv):
    """the loop runs for iv < (term, constant)"""
    out = []
    for kind, side, t, c, truth, shift in tests(T, f, l, iv):
        if kind == "lt" and side == "l" and truth:
            out.append((t, c + shift))
        elif kind == "lt" and side == "r" and not truth:
            out.append((t, c + 1 + shift))
        elif kind == "eq" and not truth and l.ivs[iv][1] == 1:
            out.append((t, c + shift))
    return out


def down(T, f, l, iv):
    """the loop runs for iv >= (term, constant)"""
    out = []
    for kind, side, t, c, truth, shift in tests(T, f, l, iv):
        if kind == "lt" and side == "l" and not truth:
            out.append((t, c + shift))
        elif kind == "lt" and side == "r" and truth:
            out.append((t, c + 1 + shift))
        elif kind == "eq" and not truth and l.ivs[iv][1] == -1:
            out.append((t, c + 1 + shift))
    return out


def idxs(t, out):
    if isinstance(t, tuple):
        if t and t[0] == "idx":
            out.append(t)
        for y in t:
            if isinstance(y, tuple):
                idxs(y, out)
    return out


def passes(f):
    if getattr(f, "_passes", None) is not None:
        return f._passes
    T = Terms(f)
    res = []
    L = loops(f)
    for h, l in L.items():
        if not l.ivs:
            continue
        found = {}
        for b in l.blocks:
            for i in f.blocks[b].insts:
                if i.op not in ("load", "store") and not (i.op == "call" and i.args):
                    continue
                ads = [i.ops[0]] if i.op == "load" else [i.ops[1]] if i.op == "store" else [a for a in i.args if not isinstance(a, str)]
                for a in ads:
                    for x in idxs(T.t(a), []):
                        ix, c = offset(x[2])
                        if ix[0] != "iv" or ix[1] != () or ix[2] not in l.ivs:
                            continue
                        found.setdefault((ix[2], x[1]), set()).add(c)
        for (iv, base), offs in found.items():
            init, step = l.ivs[iv]
            c = collection(T, f, base)
            q = Pass(f, l, iv, T.t(init), step, c[0] if c else None, c[1] if c else base)
            q.offs = offs
            q.T = T
            res.append(q)
    f._passes = res
    return res
