"""Interprocedural access-path, mod/ref and alias summaries.

An address is described by access paths: a tuple whose first element is a root
  ("a",k)  the k-th parameter          ("l",i)  a local variable (alloca)
  ("g",n)  a global                    ("n",i)  an object allocated at call i
  ("u",)   unknown
followed by steps: "S.f" (field f of struct S), "[]" (element) and "*" (load).
Paths in which a field would repeat are folded back to its first occurrence, so
that recursive structures (->next) stay finite.  Per function the analysis
computes, to a fixpoint over the call graph, the locations it may write or
free, what pointers it may store where, and where its result may come from.
"""
ALLOCS = {"malloc", "calloc", "strdup", "_Znwm", "_Znam", "fopen", "glp_create_prob"}
MAXLEN = 9

# libc functions that write through a pointer argument: name -> arg index
LIBC_WRITES = {"memset": (0,), "memcpy": (0,), "memmove": (0,), "bzero": (0,), "strcpy": (0,),
               "strncpy": (0,), "strcat": (0,), "strncat": (0,), "sprintf": (0,), "snprintf": (0,),
               "vsnprintf": (0,), "gettimeofday": (0, 1), "qsort": (0,)}


def ext(path, step):
    """Append a step, with folding."""
    if step == "*" and path[-1] == "*" and len(path) >= 3 and path[-2] == "*":
        return path
    if step == "[]" and path[-1] == "[]":
        return path
    if "." in step and step in path:
        return path[:path.index(step) + 1]
    if len(path) >= MAXLEN:
        return path
    return path + (step,)


def extall(path, steps):
    for s in steps:
        path = ext(path, s)
    return path


def pointee(t):
    t = t.rstrip()
    if t.endswith("const"):
        t = t[:-5].rstrip()
    if t.endswith("*") or t.endswith("&"):
        return t[:-1]
    return None


def nkey(i, root):
    """a callee's allocation site, seen from call i"""
    k = (i.id,) + root[1]
    return ("n", k if len(k) <= 3 else k[:1] + k[-2:])


class FnEff:
    def __init__(self):
        self.weak = set()    # values loaded from an array mixing owned and borrowed elements
        self.definite = {}   # written/freed path -> witness whose address is not weak
        self.writes = {}    # path -> one instruction (witness)
        self.frees = {}     # path of the pointer value freed -> inst
        self.stores = set()  # (dst path, src path): pointer stored
        self.rets = set()   # paths of returned pointer values
        self.origin = {}    # value -> set of paths


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.ftype = {}
        for sn, ms in prog.structs.items():
            for m in ms:
                self.ftype[sn + "." + m[0]] = m[1]
        self._lt = {}
        # plain C structs: no two of them overlay one another
        self.plain = {"pluto_constraints", "pluto_matrix", "plutoProg", "statement", "dependence", "pLoop", "band", "graph",
                      "vertex", "scc", "pluto_access", "plutoOptions", "plutoContext", "remapping", "hyperplane_properties",
                      "pluto_dep_list", "pluto_constraints_list"}
        bydef = {}
        for sn, ms in prog.structs.items():
            for m in ms:
                b = m[1].replace("const ", "").rstrip("[]").strip()
                if b in self.plain:
                    bydef.setdefault(b, set()).add(sn)
        # a struct embedded by value in another shares its first address
        self.plain -= set(bydef)
        self.eff = {f.name: FnEff() for f in prog.functions.values() if not f.decl}
        self.callbacks = self._callbacks()
        self._run()

    def loctype(self, f, path):
        """declared type of the location a path denotes, or None"""
        k = len(path) - 1
        while k > 0 and "." not in path[k]:
            k -= 1
        if k == 0:
            if path[0][0] != "a" or not f.sig or path[0][1] + 1 >= len(f.sig) or len(f.sig) != len(f.params) + 1:
                return None
            t = pointee(f.sig[path[0][1] + 1])
        else:
            t = self.ftype.get(path[k])
        for s in path[k + 1:]:
            if t is None:
                return None
            if s == "*":
                t = pointee(t)
            elif t.endswith("[]"):
                t = t[:-2]
        return t

    def holds_pointer(self, f, path):
        """may the location contain a pointer?"""
        key = (f.name if path[0][0] == "a" else None, path)
        r = self._lt.get(key)
        if r is None:
            t = self.loctype(f, path)
            r = True
            if t is not None:
                b = t.replace("const", "").strip()
                if not (b.endswith("*") or b.endswith("&")) and b.replace("unsigned ", "").replace("signed ", "") in (
                        "int", "char", "long", "long long", "short", "int64_t", "bool", "_Bool", "double", "float"):
                    # char* may be a void*-like buffer only for heap cells, never for the typed fields here
                    r = False
            self._lt[key] = r
        return r

    def fits(self, f, path, step):
        """could field 'step' belong to the object at 'path'?"""
        if "." not in step:
            return True
        key = (f.name if path[0][0] == "a" else None, path, step)
        r = self._lt.get(key)
        if r is None:
            r = True
            t = self.loctype(f, path)
            if t is not None:
                b = t.replace("const ", "").strip()
                if b in self.prog.structs and b in self.plain and step.rsplit(".", 1)[0] in self.plain and step.rsplit(".", 1)[0] != b \
                        and path[-1] != step:
                    r = False
            self._lt[key] = r
        return r

    # ---- callbacks handed to external iteration functions
    def _callbacks(self):
        r = {}
        for f in self.prog.functions.values():
            if f.decl:
                continue
            for i in f.calls():
                for k, a in enumerate(i.args):
                    if isinstance(a, str) and a.startswith("f:"):
                        r.setdefault((f.name, i.id), []).append((k, a[2:]))
        return r

    def values(self, f, e, v, heap):
        """origin of an operand"""
        if isinstance(v, int):
            return e.origin.get(v, frozenset())
        if isinstance(v, dict):
            if v.get("ce") == "getelementptr":
                base = self.values(f, e, v["ops"][0], heap)
                return self._gep(base, v["path"], f)
            return self.values(f, e, v["ops"][0], heap) if v.get("ops") else frozenset()
        if v.startswith("a") and v[1:].isdigit():
            return frozenset([(("a", int(v[1:])),)])
        if v.startswith("g:"):
            return frozenset([(("g", v[2:]),)])
        return frozenset()

    def _gep(self, base, path, f):
        out = set()
        for b in base:
            p = b
            for k, st in enumerate(path):
                if "f" in st:
                    if not self.fits(f, p, st["f"]):
                        break
                    p = ext(p, st["f"])
                else:
                    if k == 0 and st["i"] == "c:0":
                        continue
                    p = ext(p, "[]")
            else:
                out.add(p)
        return frozenset(out)

    def _run(self):
        fns = [f for f in self.prog.functions.values() if not f.decl]
        changed = True
        rounds = 0
        dirty = set(f.name for f in fns)
        callers = {}
        for f in fns:
            for i in f.calls():
                if i.callee:
                    callers.setdefault(i.callee, set()).add(f.name)
            for (fn, iid), cbs in self.callbacks.items():
                if fn == f.name:
                    for k, cb in cbs:
                        callers.setdefault(cb, set()).add(f.name)
        while dirty and rounds < 30:
            rounds += 1
            nd = set()
            for f in fns:
                if f.name not in dirty:
                    continue
                if self._fn(f):
                    nd |= callers.get(f.name, set())
                    nd.add(f.name)
            dirty = nd
        self.rounds = rounds

    def _fn(self, f):
        e = self.eff[f.name]
        before = self._size(e)
        heap = {}
        for d, s in e.stores:
            heap.setdefault(d, set()).add(s)
        lheap = getattr(e, "lheap", {})
        e.lheap = lheap
        for it in range(20):
            ch = False
            for i in f.allinsts():
                o = self._inst(f, e, i, heap, lheap)
                if o is not None:
                    old = e.origin.get(i.id, frozenset())
                    n = old | o
                    if len(n) > 60:
                        n = frozenset(sorted(n, key=repr)[:60])
                    if n != old:
                        e.origin[i.id] = n
                        ch = True
                if self.flag:
                    ch = True
                    self.flag = False
            if not ch:
                break
        return before != self._size(e)

    flag = False

    @staticmethod
    def _size(e):
        return (len(e.writes), len(e.frees), len(e.stores), len(e.rets), len(e.definite),
                sum(len(v) for k, v in getattr(e, "lheap", {}).items() if k[0][0] == "n"))

    def _store(self, e, heap, lheap, dst, src):
        """pointer paths src may be stored at locations dst"""
        for d in dst:
            tgt = lheap if d[0][0] in ("l", "n") else heap
            s = tgt.setdefault(d, set())
            for x in src:
                if x not in s and len(s) < 40:
                    s.add(x)
                    self.flag = True
            if d[0][0] in ("a", "g"):
                for x in src:
                    if (d, x) not in e.stores and len(e.stores) < 400:
                        e.stores.add((d, x))

    def _load(self, f, heap, lheap, p):
        r = set()
        if not self.holds_pointer(f, p):
            return r
        if p[0][0] not in ("l",):
            r.add(ext(p, "*"))
        r |= heap.get(p, set())
        r |= lheap.get(p, set())
        if p[0][0] == "l" and not r:
            # aggregate copied into a local: fall back to any store below it
            pass
        return r

    def _inst(self, f, e, i, heap, lheap):
        op = i.op
        if op == "alloca":
            return frozenset([(("l", i.id),)])
        if op in ("getelementptr", "bitcast", "freeze", "select") and any(isinstance(o, int) and o in e.weak for o in i.ops):
            e.weak.add(i.id)
        if op == "getelementptr":
            return self._gep(self.values(f, e, i.ops[0], heap), i.d["path"], f)
        if op in ("bitcast", "inttoptr", "ptrtoint", "freeze", "addrspacecast"):
            return self.values(f, e, i.ops[0], heap)
        if op == "phi":
            r = frozenset()
            for v, b in i.d["inc"]:
                r |= self.values(f, e, v, heap)
                if v in e.weak:
                    e.weak.add(i.id)
            return r
        if op == "select":
            return self.values(f, e, i.ops[1], heap) | self.values(f, e, i.ops[2], heap)
        if op == "load":
            if i.ty != "ptr":
                return None
            r = set()
            for p in self.values(f, e, i.ops[0], heap):
                r |= self._load(f, heap, lheap, p)
                if p[0][0] in ("l", "n") and "[]" in p or (isinstance(i.ops[0], int) and i.ops[0] in e.weak):
                    if any(x[0][0] == "n" for x in r):
                        e.weak.add(i.id)
            return frozenset(r)
        if op == "store":
            dst = self.values(f, e, i.ops[1], heap)
            for d in dst:
                if d[0][0] in ("a", "g"):
                    e.writes.setdefault(d, i)
                    if i.ops[1] not in e.weak:
                        e.definite.setdefault(d, i)
            if i.d.get("vty") == "ptr":
                src = self.values(f, e, i.ops[0], heap)
                self._store(e, heap, lheap, dst, src)
            return None
        if op == "ret":
            if i.ops:
                for p in self.values(f, e, i.ops[0], heap):
                    e.rets.add(p)
            return None
        if op == "call":
            return self._call(f, e, i, heap, lheap)
        return None

    def _call(self, f, e, i, heap, lheap):
        c = i.callee
        args = i.args
        if c is None:
            return frozenset([(("u",),)]) if i.ty == "ptr" else None
        if c in ALLOCS:
            return frozenset([(("n", (i.id,)),)])
        if c == "realloc":
            r = set(self.values(f, e, args[0], heap))
            r.add((("n", (i.id,)),))
            return frozenset(r)
        if c in ("free", "_ZdlPv", "_ZdlPvm"):
            for p in self.values(f, e, args[0], heap):
                if p[0][0] in ("a", "g"):
                    e.frees.setdefault(p, i)
                    if args[0] not in e.weak:
                        e.definite.setdefault(p, i)
            return None
        base = c
        if c.startswith("llvm."):
            base = c.split(".")[1]
        if base in LIBC_WRITES:
            for k in LIBC_WRITES[base]:
                if k < len(args):
                    for p in self.values(f, e, args[k], heap):
                        if p[0][0] in ("a", "g"):
                            e.writes.setdefault(p, i)
                            if args[k] not in e.weak:
                                e.definite.setdefault(p, i)
            if base in ("memcpy", "memmove"):
                # pointers inside are copied too
                src = self.values(f, e, args[1], heap)
                dst = self.values(f, e, args[0], heap)
                for s in src:
                    vs = self._load(f, heap, lheap, s)
                    self._store(e, heap, lheap, dst, vs)
                    for d in dst:
                        for p in list(lheap):
                            if p[:len(s)] == s and len(p) > len(s):
                                self._store(e, heap, lheap, [extall(d, p[len(s):])], lheap[p])
            if base in ("strcpy", "strcat", "strncpy", "memcpy", "memmove", "memset"):
                return self.values(f, e, args[0], heap)
            return None
        if base in ("__isoc99_fscanf", "__isoc23_fscanf", "fscanf", "sscanf", "__isoc99_sscanf"):
            for a in args[2:]:
                for p in self.values(f, e, a, heap):
                    if p[0][0] in ("a", "g"):
                        e.writes.setdefault(p, i)
                        if a not in e.weak:
                            e.definite.setdefault(p, i)
            return None
        callee = self.prog.functions.get(c)
        res = None
        if callee is None or callee.decl:
            # external: results are new objects as far as aliasing goes
            for k, cb in self.callbacks.get((f.name, i.id), []):
                user = [a for a in args[k + 1:]]
                self._apply(f, e, i, cb, [None] + user[:1] if c != "qsort" else [args[0], args[0]], heap, lheap)
            if i.ty == "ptr":
                return frozenset([(("n", (i.id,)),)])
            return None
        res = self._apply(f, e, i, c, args, heap, lheap)
        # function pointers given to repo functions: apply with unknown arguments
        return frozenset(res) if i.ty == "ptr" else None

    def _subst(self, f, e, i, args, path, heap, lheap):
        root = path[0]
        if root[0] == "a":
            k = root[1]
            if k >= len(args) or args[k] is None:
                return []
            cur = self.values(f, e, args[k], heap)
            for s in path[1:]:
                nx = set()
                for p in cur:
                    if s == "*":
                        nx |= self._load(f, heap, lheap, p)
                    elif self.fits(f, p, s):
                        nx.add(ext(p, s))
                cur = nx
                if len(cur) > 60:
                    cur = set(sorted(cur, key=repr)[:60])
            return cur
        if root[0] == "g":
            return [path]
        if root[0] == "n":
            return [(nkey(i, root),) + path[1:]]
        return []

    def _apply(self, f, e, i, c, args, heap, lheap):
        ce = self.eff.get(c)
        if ce is None:
            return set()
        for p in list(ce.definite):
            if p[0][0] == "a" and (p[0][1] >= len(args) or args[p[0][1]] in e.weak or args[p[0][1]] is None):
                continue
            for q in self._subst(f, e, i, args, p, heap, lheap):
                if q[0][0] in ("a", "g"):
                    e.definite.setdefault(q, i)
        for p in list(ce.writes):
            for q in self._subst(f, e, i, args, p, heap, lheap):
                if q[0][0] in ("a", "g"):
                    e.writes.setdefault(q, i)
        for p in list(ce.frees):
            for q in self._subst(f, e, i, args, p, heap, lheap):
                if q[0][0] in ("a", "g"):
                    e.frees.setdefault(q, i)
        for d, s in list(ce.stores):
            if s[0][0] == "l":
                continue
            dd = self._subst(f, e, i, args, d, heap, lheap)
            if dd:
                ss = self._subst(f, e, i, args, s, heap, lheap)
                self._store(e, heap, lheap, dd, ss)
        if any(p[0][0] == "n" for p in ce.rets):
            for d, ss in list(getattr(ce, "lheap", {}).items()):
                if d[0][0] != "n":
                    continue
                dd = [(nkey(i, d[0]),) + d[1:]]
                for sp in list(ss):
                    if sp[0][0] in ("a", "n"):
                        self._store(e, heap, lheap, dd, self._subst(f, e, i, args, sp, heap, lheap))
        r = set()
        for p in ce.rets:
            r |= set(self._subst(f, e, i, args, p, heap, lheap))
        return r


def param_paths(paths, k=None):
    return {p: w for p, w in paths.items() if p[0][0] == "a" and (k is None or p[0][1] == k)}


def fmt(fn, p):
    root = p[0]
    if root[0] == "a":
        s = fn.vname("a%d" % root[1]) or "arg%d" % root[1]
    elif root[0] == "g":
        s = root[1]
    else:
        s = "<%s>" % root[0]
    for st in p[1:]:
        if st == "*":
            continue
        if st == "[]":
            s += "[]"
        else:
            s += "->" + st.split(".", 1)[1]
    return s
