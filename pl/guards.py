"""What decides whether an element of a collection is acted upon in a pass over it.

For every pass over a program's statements, dependences or accesses the points
at which the loop does something (stores, calls with effects, early exits,
updates of its accumulators) are found, and the branch conditions that mention
the element, its index or an option and control them are expressed relative to
the element (E), its index (#) and the program (P).  Predicates computed by
functions of the library are opened up."""
from .term import Terms, loops, innermost, noreturn, atom, NULL
from .passes import passes, limit, offset, tests, top
from .dom import iteration_deps, rpo
import itertools

COLLS = ("plutoProg.stmts", "plutoProg.deps", "plutoProg.transdeps", "statement.reads", "statement.writes", "pLoop.stmts",
         "graph.vertices", "graph.sccs")
INLINE = ("graph.vertices", "graph.sccs")     # the elements themselves, not pointers to them
QUIET = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fwrite", "fflush", "putc", "vfprintf"}
DIAG = ("debug", "moredebug", "silent")


CAP = 200


def conj(c, lits, changed=(), q=None):
    for x in set(lits):
        if x[:3] + (not x[3],) in c:
            if any("." + w in x[1] + x[2] for w in changed):
                # tested again after it has changed: nothing known
                q.imprecise = True
                c = c - {x[:3] + (not x[3],)}
                lits = lits - {x}
                continue
            return None
        if x[0] == "eq" and x[3]:
            for y in c:
                if y[0] == "eq" and y[3] and y[1] == x[1] and y[2] != x[2] and isnum(y[2]) and isnum(x[2]):
                    return None
    return c | lits


def isnum(s):
    return s.lstrip("-").isdigit()


def union(a, b):
    """union of cube sets, absorbed"""
    if a is None or b is None:
        return None
    u = a | b
    ch = True
    while ch:
        ch = False
        for x in list(u):
            # two cubes that differ in the polarity of one literal are one
            for l in x:
                y = x - {l} | {l[:3] + (not l[3],)}
                if y in u:
                    u = (u - {x, y}) | {x - {l}}
                    ch = True
                    break
            if ch:
                break
    u = {x for x in u if not any(y < x for y in u)}
    return u if len(u) <= CAP else None


def covers(cur, cube):
    """the first assignment within the cube that no current cube admits, or None"""
    atoms = sorted({l[:3] for c in cur for l in c} - {l[:3] for l in cube})
    fixed = {l[:3]: l[3] for l in cube}
    if len(atoms) > 14:
        return None
    for bits in itertools.product((False, True), repeat=len(atoms)):
        a = dict(fixed)
        a.update(zip(atoms, bits))
        t = {}
        ok = True
        for (k, x, y), v in a.items():
            if k == "eq" and v and isnum(y):
                if t.setdefault(x, y) != y:
                    ok = False
                    break
        if ok and not any(all(a.get(l[:3]) == l[3] for l in c) for c in cur):
            return a
    return None


class Guards:
    def __init__(self, prog, E):
        self.p, self.E = prog, E
        self.done = {}

    # ------------------------------------------------------------ work
    def works(self, f, q):
        """[(kind, block id, early)]"""
        out = []
        l = q.l
        for b in l.blocks:
            blk = f.blocks[b]
            if noreturn(blk):
                continue
            for i in blk.insts:
                if i.op == "store":
                    a = q.T.t(i.ops[1])
                    while a[0] in ("fld", "idx"):
                        a = a[1]
                    out.append(("store" if a[0] != "loc" else "set", b, False))
                elif i.op == "call":
                    c = i.callee or "?"
                    if c.startswith("llvm.") or c in QUIET:
                        continue
                    g = self.p.callee(i)
                    if g is None or g.decl:
                        if c in ("free", "isl_map_free") or c.startswith("isl_"):
                            out.append((c, b, False))
                        continue
                    e = self.E.eff[g.name]
                    if any(x[0][0] == "a" for x in e.writes) or any(x[0][0] == "a" for x in e.frees):
                        out.append((g.short, b, False))
        for i in l.header.insts:
            if i.op == "phi" and i.id not in l.ivs:
                for v, blk in i.d["inc"]:
                    if blk in l.blocks:
                        for b in self.updates(f, l, i.id, v, blk):
                            out.append(("set", b, False))
        for eb, s in l.exits():
            if noreturn(s):
                continue
            t = eb.insts[-1]
            if self.limits(f, q, eb):
                continue
            if eb in l.latches and any(True for x in tests(q.T, f, l, q.iv)):
                continue
            out.append(("exit", (eb.id, list(t.succ).index(s.id) if t.op == "br" else 0), True))
        return out

    def limits(self, f, q, b):
        """the branch that ends this block is (part of) the loop's own limit, not a decision about an element"""
        if b is not q.l.header and not (top(f, q.l, b) and any(s.id not in q.l.blocks for s in b.succ)):
            return False
        for k in (0, 1):
            if any("E" in x[1] + x[2] or "[#]" in x[1] + x[2] for x in self.edge(f, q, b.id, k)):
                return False
        return True

    def updates(self, f, l, phi, v, blk, seen=None):
        """blocks in which the value carried round the loop is changed"""
        seen = set() if seen is None else seen
        if not isinstance(v, int) or v == phi or v in seen:
            return set() if v == phi or v in seen else {blk}
        seen.add(v)
        i = f.insts[v]
        if i.bb.id not in l.blocks:
            return {blk}
        if i.op == "phi":
            out = set()
            for x, b in i.d["inc"]:
                out |= self.updates(f, l, phi, x, b, seen)
            return out
        return {i.bb.id}

    # ------------------------------------------------------------ conditions
    def canon(self, t, el, iv, own):
        if t == el:
            return "E"
        if t == iv:
            return "#"
        if t == own:
            return "P"
        k = t[0]
        if k == "ld":
            return self.canon(t[1], el, iv, own)
        if k == "fld":
            return self.canon(t[1], el, iv, own) + "." + t[2].split(".", 1)[-1]
        if k == "idx":
            return self.canon(t[1], el, iv, own) + "[" + self.canon(t[2], el, iv, own) + "]"
        if k == "c":
            return str(t[1])
        if k == "null":
            return "NULL"
        if k in ("add", "sub", "mul", "and", "or", "sdiv", "udiv", "srem", "urem", "min", "max"):
            return "%s(%s,%s)" % (k, self.canon(t[1], el, iv, own), self.canon(t[2], el, iv, own))
        if k == "call":
            a = [self.canon(x, el, iv, own) for x in t[4:]]
            a = [x for x in a if "E" in x or "#" in x]
            return "f(%s)" % ",".join(a) if a else "?"
        if k == "icmp":
            return "%s(%s,%s)" % (t[1], self.canon(t[2], el, iv, own), self.canon(t[3], el, iv, own))
        return "?"

    def rel(self, s):
        # what a computed value depends on is not the concern here
        return ("E" in s.replace("NULL", "") or "#" in s) and "f(f(" not in s and "f(#" not in s

    def tokens(self, key, truth, el, iv, own, depth=0, T=None):
        """canonical conditions: (predicate, left, right, truth)"""
        if key[0] == "b":
            t = key[1]
            if t[0] == "call":
                r = self.open(t, el, iv, own, truth, depth)
                if r is not None:
                    return r
            s = self.canon(t, el, iv, own)
            return {("b", s, "", truth)} if self.rel(s) else self.option(s, truth)
        a, b = key[1], key[2]
        # a comparison kept in a variable
        if key[0] == "eq" and b == ("c", 0) and a[0] == "icmp" and depth < 4:
            out = set()
            for k, tr in self.norm(a, not truth):
                out |= self.tokens(k, tr, el, iv, own, depth + 1)
            return out
        # comparison of a predicate's result with zero
        if key[0] == "eq" and b in (("c", 0), NULL) and a[0] == "call":
            r = self.open(a, el, iv, own, not truth, depth)
            if r is not None:
                return r
        out = set()
        for x in (a, b):
            if x[0] == "call" and key[0] != "b":
                pass
        sa, sb = self.canon(a, el, iv, own), self.canon(b, el, iv, own)
        if any("f(f(" in x or "f(#" in x for x in (sa, sb)):
            return set()
        if not self.rel(sa) and not self.rel(sb):
            return self.option(sa, truth, key, sb)
        if key[0] == "eq" and sb < sa and not (sb.lstrip("-").isdigit() or sb == "NULL"):
            sa, sb = sb, sa
        if key[0] == "eq" and sb == "NULL":
            sb = "0"
        return {(key[0], sa, sb, truth)}

    def option(self, s, truth, key=None, sb=""):
        if ".options." in s:
            o = s.rsplit(".", 1)[1]
            if key is not None and key[0] == "eq" and sb == "0":
                truth = not truth
            if o not in DIAG:
                return {("opt", o, "", truth)}
        return set()

    def open(self, t, el, iv, own, truth, depth):
        """the conditions a predicate of the library tests"""
        g = self.p.functions.get(t[1])
        if g is None or g.decl or not g.blocks or depth > 2:
            return None
        if not self.predicate(g):
            return set()
        bind = {k: a for k, a in enumerate(t[4:])}
        T = Terms(g, bind, t[2] + (t[3],))
        rets = [i for i in g.allinsts() if i.op == "ret" and i.ops]
        if len(rets) == 1:
            rt = T.t(rets[0].ops[0])
            if rt[0] == "ld":
                return self.tokens(("eq", rt, ("c", 0)), not truth, el, iv, own, depth + 1)
            if rt[0] == "icmp":
                for k, tr in self.norm(rt, truth):
                    return self.tokens(k, tr, el, iv, own, depth + 1)
        out = set()
        for b in g.blocks:
            x = b.insts[-1] if b.insts else None
            if x is not None and x.op == "br" and len(x.succ) == 2:
                for k, tr in atom(T, g, x.d["cond"], True):
                    for tk in self.tokens(k, tr, el, iv, own, depth + 1):
                        out.add(tk[:3] + (None,))
        for rr in rets:
            v = rr.ops[0]
            for y in self.sources(g, v):
                tt = T.t(y)
                if tt[0] == "icmp":
                    for k, tr in self.norm(tt, True):
                        for tk in self.tokens(k, tr, el, iv, own, depth + 1):
                            out.add(tk[:3] + (None,))
                elif tt[0] in ("ld", "call"):
                    for tk in self.tokens(("b", tt) if tt[0] == "call" else ("eq", tt, ("c", 0)), True, el, iv, own, depth + 1):
                        out.add(tk[:3] + (None,))
        return out

    def predicate(self, g, depth=0):
        """a function that only looks at things: no stores, no allocation, no calls but of the same kind"""
        k = self.done.get(g.name)
        if k is None:
            self.done[g.name] = False
            k = g.ret in ("i1", "i8", "i32", "i64") if hasattr(g, "ret") else True
            for i in g.allinsts():
                if i.op == "store":
                    k = False
                elif i.op == "ret" and i.ops and isinstance(i.ops[0], int) and g.insts[i.ops[0]].ty == "ptr":
                    k = False
                elif i.op == "call" and not (i.callee or "?").startswith("llvm.") and not i.d.get("noreturn"):
                    h = self.p.callee(i)
                    if (i.callee or "?") in QUIET:
                        continue
                    if h is None or h.decl or not self.predicate(h, depth + 1):
                        k = False
            self.done[g.name] = k
        return k

    @staticmethod
    def sources(g, v, seen=None):
        seen = set() if seen is None else seen
        if not isinstance(v, int) or v in seen:
            return
        seen.add(v)
        i = g.insts[v]
        if i.op == "phi":
            for x, b in i.d["inc"]:
                yield from Guards.sources(g, x, seen)
        elif i.op in ("zext", "sext", "trunc", "freeze"):
            yield from Guards.sources(g, i.ops[0], seen)
        else:
            yield v

    @staticmethod
    def norm(t, truth):
        from .term import norm
        return norm(t[1], t[2], t[3], truth)

    def guards(self, f, q, start):
        """conditions that control a block (or an exit edge) within the pass"""
        cd = iteration_deps(f, q.l, noreturn)
        out, seen, work = set(), set(), []
        if isinstance(start, tuple):
            work = [start]
        else:
            work = list(cd.get(start, ()))
        while work:
            x, k = work.pop()
            if (x, k) in seen or x not in q.l.blocks:
                continue
            seen.add((x, k))
            work += list(cd.get(x, ()))
            if self.limits(f, q, f.blocks[x]):
                continue
            out |= self.edge(f, q, x, k)
        return out

    def edge(self, f, q, x, k):
        """conditions that hold on the k-th edge out of a block"""
        el = ("idx", ("ld", q.addr), ("iv", (), q.iv))
        if q.coll not in INLINE:
            el = ("ld", el)
        iv, own = ("iv", (), q.iv), q.addr[1]
        t = f.blocks[x].insts[-1]
        out = set()
        if t.op == "switch":
            s = self.canon(q.T.t(t.d.get("cond", t.ops[0] if t.ops else "?")), el, iv, own) if t.ops or "cond" in t.d else "?"
            return {("switch", s, "", None)} if self.rel(s) else out
        if t.op != "br" or len(t.succ) != 2 or innermost(f, f.blocks[x]) is not q.l:
            return out
        # a branch one side of which never returns is an assertion
        if any(noreturn(f.blocks[s]) for s in t.succ):
            return out
        for key, truth in atom(q.T, f, t.d["cond"], k == 0):
            out |= self.tokens(key, truth, el, iv, own)
        return out

    def cubes(self, f, q):
        """block id -> set of cubes (sets of literals) under which one iteration gets there; None: given up"""
        l = q.l
        at = {l.header.id: {frozenset()}}
        order = [b for b in rpo(f) if b.id in l.blocks]
        for b in order:
            cs = at.get(b.id)
            if cs is None:
                at[b.id] = cs = set()
            t = b.insts[-1]
            for k, s in enumerate(t.succ if t.op in ("br", "switch") else ()):
                if s == l.header.id or s not in l.blocks or noreturn(f.blocks[s]):
                    continue
                at[s] = union(at.get(s, set()), self.along(f, q, b, k, cs))
        return at

    def along(self, f, q, b, k, cs):
        if cs is None:
            return None
        t = b.insts[-1]
        if self.limits(f, q, b):
            lits = set()
        else:
            lits = {x for x in self.edge(f, q, b.id, k) if x[3] is not None and "?" not in x[1] + x[2]}
        out = set()
        for c in cs:
            n = conj(c, lits, self.changed(f, q), q)
            if n is not None:
                out.add(n)
        return out

    def changed(self, f, q):
        """names of the fields the loop may change"""
        c = getattr(q.l, "_changed", None)
        if c is None:
            c = set()
            for b in q.l.blocks:
                for i in f.blocks[b].insts:
                    if i.op == "store":
                        a = q.T.t(i.ops[1])
                        while a[0] in ("fld", "idx", "ld"):
                            if a[0] == "fld":
                                c.add(a[2].split(".", 1)[-1])
                                break
                            a = a[1]
                    elif i.op == "call":
                        g = self.p.callee(i)
                        if g is not None and not g.decl:
                            for x in self.E.eff[g.name].writes:
                                n = [y for y in x if isinstance(y, str) and "." in y]
                                if n:
                                    c.add(n[-1].split(".", 1)[-1])
            q.l._changed = c
        return c

    def collect(self):
        """function -> collection -> work kind -> tokens"""
        res = {}
        for f in self.p.repo_functions:
            for q in passes(f):
                if q.coll not in COLLS:
                    continue
                at = self.cubes(f, q)
                for kind, blk, early in self.works(f, q):
                    g = self.guards(f, q, blk)
                    d = res.setdefault(f.short, {}).setdefault({"pLoop.stmts": "loop stmts"}.get(q.coll, q.coll.split(".")[1]), {}).setdefault(kind, [set(), q, set()])
                    d[0] |= g
                    if early:
                        cs = self.along(f, q, f.blocks[blk[0]], blk[1], at.get(blk[0], set()))
                    else:
                        cs = at.get(blk, set())
                    d[2] = union(d[2], cs)
        return res

    # ------------------------------------------------------------ verdict
    @staticmethod
    def allowed(t, table):
        for u in table:
            if u[0] == t[0] and (u[1], u[2]) == (t[1], t[2]) and (t[3] is None or u[3] is None or t[3] == u[3]):
                return True
        if Guards.derived(t, table):
            return True
        # a part of an allowed comparison, compared with an outside value
        if t[0] == "eq" and t[2] == "?" or t[1] == "?":
            part = t[1] if t[2] == "?" else t[2]
            for u in table:
                if u[0] == t[0] and part in (u[1], u[2]) and u[2] not in ("0",) and (t[3] is None or u[3] is None or t[3] == u[3]):
                    return True
        return False

    @staticmethod
    def derived(t, table):
        """x == y where both are compared with an outside value in the table"""
        if t[0] != "eq" or t[3] is None or "?" in t[1] + t[2] or isnum(t[2]):
            return False
        return all(any(u[0] == "eq" and "?" in (u[1], u[2]) and part in (u[1], u[2]) for u in table) for part in (t[1], t[2]))

    def check(self, r, tab):
        col = self.collect()
        n = m = 0
        for fn, cs in sorted(col.items()):
            t = tab.get(fn)
            for c, kinds in cs.items():
                heap = [k for k in kinds if k not in ("set", "exit")]
                for kind, (toks, q, cur) in kinds.items():
                    n += 1
                    if kind == "exit" and heap and "exit" not in (t or {}).get(c, {}):
                        r.bad("%s|%s|exit" % (fn, c), "%s: %s acts on the elements of %s but leaves the loop before the last one" %
                              (q.where(), fn, c))
                        continue
                    if t is None or c not in t:
                        continue
                    al = t[c].get(kind)
                    if al is not None and kind != "set" and al["when"] is not None and cur is not None:
                        on = [tuple(x) for v in t[c].values() for x in v["on"]]
                        free = {tuple(x)[:3] for v in t[c].values() for x in v["on"] if x[3] is None}
                        now = {frozenset(l for l in cb if l[:3] not in free and not self.derived(l, on)) for cb in cur}
                        for cb in al["when"]:
                            m += 1
                            a = covers(now, [tuple(x) for x in cb])
                            if a is not None:
                                r.bad("%s|%s|%s|when" % (fn, c, kind),
                                      "%s: in %s an element of %s with %s is left out (%s)" %
                                      (q.where(), fn, c, ", ".join(self.text(k + (v,)) for k, v in sorted(a.items())) or "any value", kind))
                                break
                    if al is None or kind == "set":
                        al = [x for v in t[c].values() for x in v["on"]]
                    else:
                        al = al["on"]
                    al = [tuple(x) for x in al]
                    for tk in sorted(toks, key=repr):
                        m += 1
                        if kind == "set" and tk[0] == "lt" and (tk[1] == "?") != (tk[2] == "?") and \
                                not any(u[:3] == tk[:3] for u in al):
                            continue  # the greatest or least value so far
                        if not self.allowed(tk, al):
                            r.bad("%s|%s|%s|%s" % (fn, c, kind, " ".join(map(str, tk))),
                                  "%s: in %s whether an element of %s takes part (%s) depends on '%s', which is no reason to leave one out here" %
                                  (q.where(), fn, c, kind, self.text(tk)))
        r.obligations += n + m
        r.floor("work_points", n, 200)
        r.floor("conditions_judged", m, 150)

    @staticmethod
    def text(t):
        if t[0] == "opt":
            return "options->" + t[1] + (" set" if t[3] else " unset")
        op = {"eq": "==", "lt": "<", "b": "", "switch": "switch"}[t[0]]
        return ("%s %s %s" % (t[1], op, t[2])).strip() + ("" if t[3] is None else " is %s" % str(t[3]).lower())
