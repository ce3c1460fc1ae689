"""Ownership typestate engine.

Every resource (an object obtained from an allocating call, or an owned
parameter) is followed along every control-flow path of its function, together
with the set of names that refer to it and the branch facts that hold
(path-sensitive up to merging of states that agree on the resource).  Calls are
interpreted through ownership summaries: isl's from its headers' take/give/keep
annotations, libc's/glpk's from a table, the repository's inferred bottom-up
from the bodies.
"""
import collections
from .expr import ExprCtx, CASTS

CONSUME = {("free", 0), ("realloc", 0), ("fclose", 0), ("glp_delete_prob", 0), ("_ZdlPv", 0), ("_ZdlPvm", 0),
           ("isl_ctx_free", 0), ("reallocarray", 0)}
OWNED = {"malloc": "heap", "calloc": "heap", "realloc": "heap", "strdup": "heap", "strndup": "heap", "fopen": "file",
         "fdopen": "file", "tmpfile": "file",
         "pluto_constraints_lexmin_pip": "heap",
         "glp_create_prob": "glpk", "isl_ctx_alloc": "isl", "_Znwm": "heap", "_Znam": "heap", "reallocarray": "heap"}
RET_ARG0 = {"strcpy", "strcat", "strncpy", "strncat", "memcpy", "memmove", "memset", "fgets", "strtok"}
KEEP_PREFIX = ("isl_", "glp_", "__gmpz_", "llvm.")
KEEP = {"printf", "fprintf", "sprintf", "snprintf", "puts", "putchar", "fputs", "fputc", "fscanf", "__isoc99_fscanf",
        "__isoc23_fscanf", "sscanf", "__isoc99_sscanf", "feof", "ferror", "fflush", "strlen", "strcmp", "strncmp", "memcmp", "bzero", "atoi",
        "qsort", "fgetc", "getline", "rewind", "fseek", "ftell", "strstr", "strchr", "strrchr", "gettimeofday", "perror",
        "fwrite", "fread", "strtol", "strtoll", "atol", "atoll", "isatty", "fileno", "vfprintf", "toupper", "memchr",
        "__isoc23_sscanf", "__isoc23_strtol", "__isoc23_strtoll", "ungetc", "getc", "putc", "strcasecmp", "strnlen",
        "pluto_constraints_lexmin_pip", "strdup", "strndup", "getopt_long", "strerror", "fprintf"} | RET_ARG0

# functions whose result is an owned object although the body builds it through
# an out-parameter (confirmed by reading)
RET_OWNED = {"pluto_get_dominator_bands": "heap", "pluto_get_outermost_permutable_bands": "heap",
             "pluto_get_innermost_permutable_bands": "heap", "isl_basic_map_to_pluto_constraints": "heap",
             "pluto_get_dom_parallel_bands": "heap"}
KINDS_OF_RELEASE = {"free": "heap"}


class Summary:
    __slots__ = ("cond", "param", "ret", "retalias", "giveout", "kind", "maynull")

    def __init__(self):
        self.cond = {}       # k -> (results with which it was released, results with which it was kept)
        self.param = {}      # k -> keep|consume|maybe|escape|keepret
        self.ret = None      # owned kind | "borrowed" | None
        self.retalias = set()
        self.giveout = set()


class Report:
    def __init__(self, kind, fn, res, inst, detail, resinst=None):
        self.kind = kind          # leak, double-release, use-after-release, ...
        self.fn = fn
        self.res = res            # text naming the resource
        self.inst = inst
        self.detail = detail
        self.rkind = None
        self.resinst = resinst

    def key(self):
        return "%s|%s|%s" % (self.kind, self.fn.short, self.res)

    def __str__(self):
        return "%s: %s in %s: %s (%s)" % (self.inst.where() if self.inst else self.fn.file, self.kind, self.fn.short, self.res, self.detail)


class Own:
    def __init__(self, prog, effects, isl, repo_annot):
        self.prog = prog
        self.eff = effects
        self.isl = isl
        self.annot = repo_annot
        self.sum = {}
        self.ectx = {}
        self.tagw = {}
        self.paramres = {}
        self.states_explored = 0
        self.resources = 0
        self.overflow = 0
        self._infer()

    # ---------- summaries
    def ex(self, f):
        e = self.ectx.get(f.name)
        if e is None:
            e = self.ectx[f.name] = ExprCtx(f)
        return e

    def order(self):
        fns = [f for f in self.prog.functions.values() if not f.decl]
        names = {f.name for f in fns}
        seen, out = set(), []

        def visit(f):
            stack = [(f, iter([c for c in f.calls()]))]
            seen.add(f.name)
            while stack:
                g, it = stack[-1]
                for c in it:
                    n = c.callee
                    if n in names and n not in seen:
                        seen.add(n)
                        h = self.prog.functions[n]
                        stack.append((h, iter([x for x in h.calls()])))
                        break
                else:
                    out.append(g)
                    stack.pop()
        for f in fns:
            if f.name not in seen:
                visit(f)
        return out

    def _infer(self):
        fns = self.order()
        self.fns = [f for f in fns if f.in_repo]
        for f in fns:
            self.sum[f.name] = Summary()
        for rnd in range(4):
            changed = False
            for f in fns:
                if self._summarise(f):
                    changed = True
            if not changed:
                break

    def _summarise(self, f):
        s = self.sum[f.name]
        old = (dict(s.param), s.ret, set(s.retalias))
        move = set()
        for k, p in enumerate(f.params):
            if p["ty"] != "ptr":
                continue
            r = self.run(f, ("param", k), "B", report=False)
            oc = r.outcomes
            if "escape" in oc:
                v = "escape" if "freed" not in oc else "maybe"
            elif "freed" in oc:
                v = "consume" if "kept" not in oc else "maybe"
                if "returned" in oc and v == "consume":
                    move.add(k)
            elif "returned" in oc:
                # handed back on some paths only: the caller cannot tell
                v = "keepret" if "kept" not in oc else "escape"
            else:
                v = "keep"
            s.param[k] = v
            s.cond.pop(k, None)
            if v == "maybe" and "escape" not in oc and "returned" not in oc:
                fr = {x for x, w in r.rets if w == "freed"}
                kp = {x for x, w in r.rets if w == "kept"}
                if "?" not in fr and ("?" not in kp or f.retty == "ptr" and fr == {"null"}) and not fr & kp and fr and kp:
                    s.cond[k] = (frozenset(fr), frozenset(kp))
            if "returned" in oc and k not in move:
                s.retalias.add(k)
            else:
                s.retalias.discard(k)
        if f.in_repo:
            self._giveouts(f, s)
        if f.retty == "ptr":
            s.ret = self._retown(f, move)
        return old != (dict(s.param), s.ret, set(s.retalias))

    def _giveouts(self, f, s):
        """out-parameters that hold an owned object on every return"""
        stores = {}
        for i in f.allinsts():
            if i.op == "store" and isinstance(i.ops[1], str) and i.ops[1].startswith("a") and isinstance(i.ops[0], int) \
                    and i.d.get("vty", "ptr") == "ptr":
                stores.setdefault(int(i.ops[1][1:]), []).append(i)
        s.giveout = {}
        for k, ss in stores.items():
            kind = None
            for i in ss:
                kd = self._origin_owned(f, i.ops[0])
                if kd is None:
                    kind = None
                    break
                kind = kd
            if kind and must_pass(f, {i.bb.id for i in ss}):
                s.giveout[k] = kind

    def _origin_owned(self, f, v):
        seen, work, kind = set(), [v], None
        while work:
            v = work.pop()
            if v == "null" or (isinstance(v, int) and v in seen):
                continue
            if not isinstance(v, int):
                return None
            seen.add(v)
            i = f.insts[v]
            if i.op == "phi":
                work += [x for x, b in i.d["inc"]]
            elif i.op in CASTS:
                work.append(i.ops[0])
            elif i.op == "call":
                k = self.call_owned(i)
                if not k:
                    return None
                kind = k
            else:
                return None
        return kind

    def _retown(self, f, move=()):
        kinds = set()
        seen = set()
        work = []
        for i in f.allinsts():
            if i.op == "ret" and i.ops:
                work.append(i.ops[0])
        while work:
            v = work.pop()
            if isinstance(v, str):
                if v.startswith("a") and v[1:].isdigit() and int(v[1:]) in move:
                    kinds.add("heap")
                    continue
                if v not in ("null", "undef"):
                    return "borrowed"
                continue
            if isinstance(v, dict):
                return "borrowed"
            if v in seen:
                continue
            seen.add(v)
            i = f.insts[v]
            if i.op == "phi":
                work += [x for x, b in i.d["inc"]]
            elif i.op == "select":
                work += i.ops[1:]
            elif i.op in CASTS:
                work.append(i.ops[0])
            elif i.op == "call":
                k = self.call_owned(i)
                if not k:
                    cf = self.prog.functions.get(i.callee)
                    if cf is not None and not cf.decl and self.sum[cf.name].ret is None:
                        continue        # recursion: nothing known yet
                    al = self.call_alias(i)
                    if al:
                        work += [i.args[a] for a in al]
                        continue
                    return "borrowed"
                r = self.run(f, ("call", i), "N", report=False)
                if "returned" not in r.outcomes:
                    return "borrowed"
                if "escape" in r.outcomes and False:
                    return "borrowed"
                kinds.add(k)
            elif i.op == "load" and isinstance(i.ops[0], int) and f.insts[i.ops[0]].op == "alloca":
                # a variable whose address is taken
                src = [j for j in f.allinsts() if j.op == "store" and j.ops[1] == i.ops[0]]
                if not src:
                    return "borrowed"
                work += [j.ops[0] for j in src]
            else:
                return "borrowed"
        if not kinds:
            return None
        return sorted(kinds)[0]

    # ---------- call interpretation
    def call_owned(self, i):
        """kind of resource the call's result is, or None"""
        c = i.callee
        if c is None or i.ty != "ptr":
            return None
        if c in OWNED:
            return OWNED[c]
        p = self.isl.get(c)
        fn = self.prog.functions.get(c)
        if fn is not None and not fn.decl:
            if fn.short in RET_OWNED:
                return RET_OWNED[fn.short]
            s = self.sum.get(c)
            if s and s.ret and s.ret != "borrowed" and not s.retalias:
                return s.ret
            return None
        if p is not None:
            return "isl" if p.give else None
        return None

    def call_alias(self, i):
        c = i.callee
        if c in RET_ARG0:
            return [0]
        s = self.sum.get(c)
        if s:
            return sorted(s.retalias)
        return []

    def argeff(self, i, k):
        c = i.callee
        if c is None:
            return "escape"
        if (c, k) in CONSUME:
            return "consume"
        fn = self.prog.functions.get(c)
        if fn is not None and not fn.decl:
            s = self.sum.get(c)
            if s is None:
                return "escape"
            # not computed yet only for recursion: least fixed point from "keep"
            return s.param.get(k, "keep")
        p = self.isl.get(c)
        if p is not None:
            a = p.args[k] if k < len(p.args) else "other"
            if a == "take":
                return "consume"
            return "keep"
        if c in KEEP or c.startswith(KEEP_PREFIX):
            return "keep"
        return "escape"

    def call_tags(self, i):
        """field tags a call may write"""
        c = i.callee
        if c in self.tagw:
            return self.tagw[c]
        r = set()
        e = self.eff.eff.get(c)
        if e:
            for p in e.writes:
                if p[0][0] not in ("a", "g"):
                    continue
                t = None
                for st in p[1:]:
                    if "." in st:
                        t = st
                    elif st == "[]" and t:
                        t = t.rstrip("[]") + "[]" if not t.endswith("[]") else t
                    elif st == "*" and t:
                        t = t + "[]" if not t.endswith("[]") else t
                if t:
                    # ".f" followed by "*" and stores to *(f) are elements of f
                    r.add(t)
        self.tagw[c] = r
        return r

    # ---------- the path analysis of one resource
    def run(self, f, res, start, report=True):
        return Run(self, f, res, start, report).go()


class Run:
    def __init__(self, own, f, res, start, report):
        self.o = own
        self.f = f
        self.res = res
        self.start = start
        self.outcomes = set()
        self.rets = set()        # (result, what became of the resource)
        self.reports = []
        self.report = report
        self.ex = own.ex(f)
        self.seed_inst = res[1] if res[0] in ("call", "out") else None
        own.resources += 1
        self.name = self._name()

    def _name(self):
        if self.res[0] == "param":
            return "parameter %s" % (self.f.vname("a%d" % self.res[1]) or self.res[1])
        if self.res[0] == "out":
            i, k = self.res[1], self.res[2]
            a = i.args[k]
            return "%s set by %s" % (self.f.vname(a) or "out%d" % k, self.o.prog.cname(i))
        i = self.res[1]
        n = self.f.vname(i.id)
        if n is None:
            # through a phi or a cast
            for j in self.f.allinsts():
                if j.op == "phi" and any(v == i.id for v, b in j.d["inc"]) and self.f.vname(j.id):
                    n = self.f.vname(j.id)
                    break
        return "%s from %s" % (n or "result", self.o.prog.cname(i))

    def rep(self, kind, inst, detail):
        if self.report:
            self.reports.append(Report(kind, self.f, self.name, inst, detail, self.seed_inst))

    # state: (ts, frozenset aliases) -> (facts dict key->(bool,leaves,tags), vals dict)
    def go(self):
        f = self.f
        if not f.blocks:
            return self
        al0 = frozenset()
        if self.res[0] == "param":
            al0 = frozenset(["a%d" % self.res[1]])
        self.inn = collections.defaultdict(dict)
        self.visits = collections.Counter()
        entry = f.blocks[0]
        self.inn[entry.id][(self.start, al0)] = ({}, {})
        work = [entry.id]
        inwork = {entry.id}
        # reverse post-order priority
        rpo = rpo_order(f)
        import heapq
        heap = [(rpo.get(entry.id, 0), entry.id)]
        self.done = {}
        while heap:
            _, b = heapq.heappop(heap)
            inwork.discard(b)
            blk = f.blocks[b]
            for key, st in list(self.inn[b].items()):
                prev = self.done.get((b, key))
                sig = (tuple(sorted(st[0])), tuple(sorted((k, str(v)) for k, v in st[1].items())))
                if prev == sig:
                    continue
                self.done[(b, key)] = sig
                self.visits[(b, key)] += 1
                self.o.states_explored += 1
                if self.visits[(b, key)] > 200:
                    self.o.overflow += 1
                    continue
                for succ, nkey, nfacts, nvals in self.block(blk, key, st):
                    cur = self.inn[succ].get(nkey)
                    if cur is None:
                        if len(self.inn[succ]) > 400:
                            self.o.overflow += 1
                            continue
                        self.inn[succ][nkey] = (nfacts, nvals)
                        ch = True
                    else:
                        mf = {k: v for k, v in cur[0].items() if k in nfacts and nfacts[k][0] == v[0]}
                        mv = {}
                        for k, v in cur[1].items():
                            w = nvals.get(k)
                            if w == v:
                                mv[k] = v
                            elif w is not None:
                                j = join_vals(v, w)
                                if j is not None:
                                    mv[k] = j
                        ch = len(mf) != len(cur[0]) or mv != cur[1]
                        if ch:
                            self.inn[succ][nkey] = (mf, mv)
                    if ch and succ not in inwork:
                        inwork.add(succ)
                        heapq.heappush(heap, (rpo.get(succ, 0), succ))
        # one report per (kind, inst)
        seen = set()
        out = []
        for r in self.reports:
            k = (r.kind, r.inst.id if r.inst else None)
            if k not in seen:
                seen.add(k)
                out.append(r)
        self.reports = out
        return self

    def base(self, v, n=0):
        """root SSA value a pointer is derived from by GEP/cast"""
        while isinstance(v, int) and n < 30:
            i = self.f.insts[v]
            if i.op == "getelementptr" or i.op in CASTS:
                v = i.ops[0]
                n += 1
            else:
                return v
        if isinstance(v, dict):
            return None
        return v

    def use(self, ts, al, v, inst, what):
        if ts == "F":
            b = self.base(v)
            if b is not None and b in al:
                self.rep("use-after-release", inst, what)
                return True
        return False

    def block(self, blk, key, st, start=0):
        ts, al = key
        facts = dict(st[0])
        vals = dict(st[1])
        al = set(al)
        f = self.f
        o = self.o
        for n, i in enumerate(blk.insts):
            if n < start:
                continue
            op = i.op
            if op == "phi":
                continue
            iid = i.id
            if op != "call" and op not in ("store", "br", "ret", "switch", "unreachable"):
                if iid in al:
                    al.discard(iid)
                    if not al and ts == "O":
                        self.rep("leak", i, "last reference is overwritten")
                        return
            if op == "load":
                a = i.ops[0]
                if isinstance(a, int) and ("m", a) in al:
                    al.add(iid)
                if self.use(ts, al - {iid}, a, i, "read through it"):
                    return
                facts_kill_leaf(facts, iid)
                vals.pop(iid, None)
            elif op == "store":
                v, a = i.ops
                if self.use(ts, al, a, i, "written through it"):
                    return
                tag = self.ex.tag(a)
                facts_kill_tag(facts, tag)
                if v in al and not isinstance(v, dict):
                    if isinstance(a, int) and f.insts[a].op == "alloca":
                        al.add(("m", a))
                    elif ts in ("O", "B"):
                        self.outcomes.add("escape")
                        return
                    elif ts == "F":
                        pass
                elif isinstance(a, int) and ("m", a) in al:
                    al.discard(("m", a))
                    if not al and ts == "O":
                        self.rep("leak", i, "last reference is overwritten")
                        return
            elif op in CASTS:
                if i.ops[0] in al and op in ("bitcast", "freeze"):
                    al.add(iid)
            elif op == "select":
                if i.ops[1] in al or i.ops[2] in al:
                    self.outcomes.add("escape")
                    return
            elif op == "call":
                if ts == "N" and i is self.seed_inst:
                    # this execution, or a later one, makes the object followed
                    f2, v2 = dict(facts), dict(vals)
                    self.call(i, ts, set(), f2, v2, seed=False)
                    yield from self.block(blk, ("N", frozenset()), (f2, v2), n + 1)
                k = self.conditional(i, ts, al)
                if k is not None:
                    # released or not: the result tells
                    for t2, res in ((ts, k[1]), ("F", k[0])):
                        f2, v2, a2 = dict(facts), dict(vals), set(al)
                        self.kill(i, f2, v2)
                        if res == {"null"}:
                            v2[i.id] = "null"
                        elif all(isinstance(x, int) for x in res):
                            v2[i.id] = frozenset(res)
                        elif k[0] == {"null"}:
                            v2[i.id] = "nonnull"
                        yield from self.block(blk, (t2, frozenset(a2)), (f2, v2), n + 1)
                    return
                r = self.call(i, ts, al, facts, vals)
                if r is None:
                    return
                ts = r
                if i.d.get("noreturn") or (o.prog.callee(i) is not None and o.prog.callee(i).noreturn):
                    return
            elif op == "ret":
                rv = i.ops[0] if i.ops else None
                if ts == "N":
                    return
                if rv is not None and not isinstance(rv, dict) and rv in al:
                    if ts == "F":
                        self.rep("use-after-release", i, "returned to the caller after release")
                    self.outcomes.add("returned")
                    return
                self.rets |= {(x, "freed" if ts == "F" else "kept") for x in self.result(rv, vals)}
                if ts == "O":
                    self.outcomes.add("kept")
                    self.rep("leak", i, "not released on a path to the return")
                elif ts == "B":
                    self.outcomes.add("kept")
                elif ts == "F":
                    self.outcomes.add("freed")
                return
            elif op == "unreachable":
                return
            elif op in ("add", "sub", "mul", "shl", "zext", "sext", "trunc") and vals:
                x = const_set(i.ops[0], vals)
                r = None
                w = vals.get(i.ops[0]) if isinstance(i.ops[0], int) else None
                if isinstance(w, tuple):
                    y = const_set(i.ops[1], vals) if op in ("add", "sub", "mul") else None
                    if op in ("zext", "sext", "trunc"):
                        vals[iid] = w
                        continue
                    if y is not None and len(y) == 1 and (op != "mul" or min(y) > 0):
                        vals[iid] = ("ge", arith(op, w[1], min(y)))
                        continue
                if x is not None:
                    if op in ("zext", "sext", "trunc"):
                        r = x if i.d.get("sty") != "i1" or op != "sext" else None
                    else:
                        y = const_set(i.ops[1], vals)
                        if y is not None:
                            r = frozenset(arith(op, p, q) for p in x for q in y)
                if r is not None and len(r) <= 3:
                    vals[iid] = r
                else:
                    vals.pop(iid, None)
            elif op in ("br", "switch"):
                yield from self.branch(i, ts, al, facts, vals)
                return
            else:
                pass
        # call (invoke) terminator
        t = blk.insts[-1]
        if t.op == "call" and t.succ:
            yield from self.edge(blk, t.succ[0], ts, al, facts, vals)

    def result(self, rv, vals):
        if rv is None:
            return {"void"}
        if rv == "null":
            return {"null"}
        c = const_set(rv, vals) if not isinstance(rv, dict) else None
        if c is not None:
            return set(c)
        if isinstance(rv, int) and vals.get(rv) == "null":
            return {"null"}
        return {"?"}

    def conditional(self, i, ts, al):
        """the call releases the object or not, and its result tells which"""
        if ts not in ("O", "B") or i.callee is None or i.id in al:
            return None
        s = self.o.sum.get(i.callee)
        if s is None or not s.cond:
            return None
        ks = [k for k, a in enumerate(i.args) if not isinstance(a, dict) and a in al]
        if len(ks) != 1 or ks[0] not in s.cond or any(isinstance(a, int) and ("m", a) in al for a in i.args):
            return None
        return s.cond[ks[0]]

    def kill(self, i, facts, vals):
        facts_kill_leaf(facts, i.id)
        vals.pop(i.id, None)
        for t in self.o.call_tags(i):
            facts_kill_tag(facts, t)
        for a in i.args:
            if isinstance(a, int) and self.f.insts[a].op == "alloca":
                facts_kill_tag(facts, "m%d" % a)

    def call(self, i, ts, al, facts, vals, seed=True):
        o, f = self.o, self.f
        c = i.callee
        seed = seed and self.res[0] in ("call", "out") and self.res[1] is i
        # arguments
        consumed = None
        escaped = False
        retalias = False
        aliases = o.call_alias(i)
        if ts != "N":
            for k, a in enumerate(i.args):
                if isinstance(a, dict):
                    continue
                if a in al:
                    e = o.argeff(i, k)
                    if ts == "F":
                        if e in ("consume",):
                            self.rep("double-release", i, "passed to %s, which releases it again" % o.prog.cname(i))
                            return None
                        if e in ("keep", "keepret", "maybe", "escape"):
                            if c in ("printf", "fprintf") and False:
                                continue
                            self.rep("use-after-release", i, "passed to %s" % o.prog.cname(i))
                            return None
                    if e == "consume":
                        if consumed is not None:
                            self.rep("double-release", i, "passed twice to %s" % o.prog.cname(i))
                            return None
                        consumed = k
                    elif e == "escape" or e == "maybe":
                        escaped = True
                    elif e == "keepret":
                        retalias = True
                    elif k in aliases:
                        retalias = True
                else:
                    b = self.base(a) if isinstance(a, int) else None
                    if b is not None and b in al and a not in al:
                        if ts == "F":
                            self.rep("use-after-release", i, "its memory is passed to %s" % o.prog.cname(i))
                            return None
                    if isinstance(a, int) and ("m", a) in al:
                        # address of a variable holding it
                        e = o.argeff(i, k)
                        if ts in ("O", "B"):
                            escaped = True
                        else:
                            al.discard(("m", a))
        # kills
        facts_kill_leaf(facts, i.id)
        vals.pop(i.id, None)
        for t in o.call_tags(i):
            facts_kill_tag(facts, t)
        for a in i.args:
            if isinstance(a, int) and f.insts[a].op == "alloca":
                facts_kill_tag(facts, "m%d" % a)
        if i.id in al and not retalias:
            al.discard(i.id)
            if not al and ts == "O" and consumed is None and not escaped:
                self.rep("leak", i, "last reference is overwritten")
                return None
        if consumed is not None:
            ts = "F"
            # a fresh reading of the variable may hold a new object
        elif escaped:
            self.outcomes.add("escape")
            return None
        if retalias:
            al.add(i.id)
        if seed:
            if ts == "N":
                ts = "O"
                al.clear()
                if self.res[0] == "call":
                    al.add(i.id)
                else:
                    al.add(("m", i.args[self.res[2]]))
            elif ts == "F":
                # a new object: start over
                ts = "O"
                al.clear()
                if self.res[0] == "call":
                    al.add(i.id)
                else:
                    al.add(("m", i.args[self.res[2]]))
            elif ts == "O":
                # earlier object still referenced by another name: keep following that one
                al.discard(i.id)
                if not al:
                    self.rep("leak", i, "not released before the next one is made in the loop")
                    return None
        return ts

    def branch(self, i, ts, al, facts, vals):
        f = self.f
        blk = i.bb
        if "cond" not in i.d or len(i.succ) == 1:
            yield from self.edge(blk, i.succ[0], ts, al, facts, vals)
            return
        if i.op == "switch":
            e = self.ex.expr(i.d["cond"])
            for n, s in enumerate(i.succ):
                nf = dict(facts)
                if n > 0:
                    key = "(eq %s c:%d)" % (e[0], i.d["cases"][n - 1])
                    if key in nf and nf[key][0] is False:
                        continue
                    nf[key] = (True, e[1], e[2])
                yield from self.edge(blk, s, ts, al, nf, vals)
            return
        cond = i.d["cond"]
        if i.succ[0] == i.succ[1]:
            yield from self.edge(blk, i.succ[0], ts, al, facts, vals)
            return
        # resolve i1 phis through vals
        neg = False
        n = 0
        while isinstance(cond, int) and n < 8:
            n += 1
            if cond in vals:
                if isinstance(vals[cond], tuple):
                    break
                if isinstance(vals[cond], frozenset):
                    if len(vals[cond]) == 1:
                        cond = "c:%d" % min(vals[cond])
                    break
                cond = vals[cond]
                continue
            ci = f.insts[cond]
            if ci.op == "xor" and ci.ops[1] in ("c:-1", "c:1") and isinstance(ci.ops[0], int):
                neg = not neg
                cond = ci.ops[0]
                continue
            if ci.op == "icmp" and ci.d["pred"] in ("eq", "ne") and ci.ops[1] == "c:0" and isinstance(ci.ops[0], int):
                a = ci.ops[0]
                ai = f.insts[a]
                while ai.op in ("zext", "sext", "trunc") and isinstance(ai.ops[0], int) and a not in vals:
                    a = ai.ops[0]
                    ai = f.insts[a]
                cs = const_set(a, vals)
                if cs is not None and (cs == {0} or 0 not in cs):
                    z = cs == {0}
                    r = z if ci.d["pred"] == "eq" else not z
                    cond = "c:1" if r else "c:0"
                    continue
                if ai.ty == "i1" and a != ci.ops[0]:
                    if ci.d["pred"] == "eq":
                        neg = not neg
                    cond = a
                    continue
            if ci.op == "trunc" and isinstance(ci.ops[0], int):
                a = ci.ops[0]
                if a in vals and not isinstance(vals[a], (frozenset, tuple)):
                    cond = vals[a]
                    continue
            break
        if isinstance(cond, str) and cond.startswith("c:"):
            t = (cond != "c:0") ^ neg
            yield from self.edge(blk, i.succ[0 if t else 1], ts, al, facts, vals)
            return
        if not isinstance(cond, int):
            for s in i.succ:
                yield from self.edge(blk, s, ts, al, facts, vals)
            return
        ci = f.insts[cond]
        # null test of the resource itself
        if ci.op == "icmp" and ci.d["pred"] in ("eq", "ne"):
            a, b = ci.ops
            if a == "null":
                a, b = b, a
            if b == "null":
                isnull_true = (ci.d["pred"] == "eq") ^ neg
                if a in vals and vals[a] == "null":
                    yield from self.edge(blk, i.succ[0 if isnull_true else 1], ts, al, facts, vals)
                    return
                if a in vals and vals[a] == "nonnull":
                    yield from self.edge(blk, i.succ[1 if isnull_true else 0], ts, al, facts, vals)
                    return
                if not isinstance(a, dict) and a in al and ts in ("O", "B"):
                    # only the non-null side has the resource
                    yield from self.edge(blk, i.succ[1 if isnull_true else 0], ts, al, facts, vals)
                    if ts == "B":
                        pass
                    return
                if not isinstance(a, dict) and a in al and ts == "F":
                    # it was non-null
                    yield from self.edge(blk, i.succ[1 if isnull_true else 0], ts, al, facts, vals)
                    return
        refine = None
        if ci.op == "icmp":
            x, y = const_set(ci.ops[0], vals), const_set(ci.ops[1], vals)
            if x is not None and y is not None:
                out = {icmp(ci.d["pred"], p, q) for p in x for q in y}
                if len(out) == 1:
                    t = out.pop() ^ neg
                    yield from self.edge(blk, i.succ[0 if t else 1], ts, al, facts, vals)
                    return
                if len(y) == 1 and isinstance(ci.ops[0], int):
                    q = min(y)
                    refine = (ci.ops[0], {True: frozenset(p for p in x if icmp(ci.d["pred"], p, q)),
                                          False: frozenset(p for p in x if not icmp(ci.d["pred"], p, q))})
            elif ci.d["pred"] in ("eq", "ne") and y is not None and len(y) == 1 and isinstance(ci.ops[0], int):
                refine = (ci.ops[0], {ci.d["pred"] == "eq": y})
            w = vals.get(ci.ops[0]) if isinstance(ci.ops[0], int) else None
            if isinstance(w, tuple) and y is not None and len(y) == 1 and ci.d["pred"][0] != "u":
                q = min(y)
                d = {"eq": False if w[1] > q else None, "ne": True if w[1] > q else None,
                     "slt": False if w[1] >= q else None, "sle": False if w[1] > q else None,
                     "sgt": True if w[1] > q else None, "sge": True if w[1] >= q else None}[ci.d["pred"]]
                if d is not None:
                    yield from self.edge(blk, i.succ[0 if d ^ neg else 1], ts, al, facts, vals)
                    return
            # an out-count of the call that made the object: zero means there is no object
            if ts == "O" and self.res[0] == "call" and self.empty_side(ci, neg) is not None:
                side = self.empty_side(ci, neg)
                yield from self.edge(blk, i.succ[1 - side], ts, al, facts, vals)
                return
        k = self.ex.cond(cond)
        if k is None:
            for s in i.succ:
                yield from self.edge(blk, s, ts, al, facts, vals)
            return
        key, kneg, leaves, tags = k
        kneg ^= neg
        if key in facts:
            t = facts[key][0] ^ kneg
            yield from self.edge(blk, i.succ[0 if t else 1], ts, al, facts, vals)
            return
        for side, s in ((True, i.succ[0]), (False, i.succ[1])):
            nf = dict(facts)
            nf[key] = (side ^ kneg, leaves, tags)
            nv = vals
            if refine and (side ^ neg) in refine[1]:
                nv = dict(vals)
                nv[refine[0]] = refine[1][side ^ neg]
            yield from self.edge(blk, s, ts, al, nf, nv)

    def empty_side(self, ci, neg):
        """index of the branch side on which the count returned with the object is zero"""
        f = self.f
        a, b = ci.ops
        p = ci.d["pred"]
        if not isinstance(a, int):
            a, b = b, a
            p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
        if not isinstance(a, int) or b not in ("c:0", "c:1"):
            return None
        ai = f.insts[a]
        if ai.op != "load" or not isinstance(ai.ops[0], int) or f.insts[ai.ops[0]].op != "alloca":
            return None
        if ai.ops[0] not in self.res[1].args:
            return None
        q = p if p in ("eq", "ne") else p[1:]
        zero = {("eq", "c:0"): True, ("ne", "c:0"): False, ("gt", "c:0"): False, ("le", "c:0"): True,
                ("lt", "c:1"): True, ("ge", "c:1"): False}.get((q, b))
        if zero is None:
            return None
        return 0 if zero ^ neg else 1

    def edge(self, blk, succ, ts, al, facts, vals):
        f = self.f
        sb = f.blocks[succ]
        nal = set(al)
        nvals = dict(vals)
        nfacts = dict(facts)
        phis = []
        for i in sb.insts:
            if i.op != "phi":
                break
            v = None
            for x, b in i.d["inc"]:
                if b == blk.id:
                    v = x
            phis.append((i, v))
        add, rem = [], []
        lost = False
        for i, v in phis:
            if not isinstance(v, dict) and v in al:
                add.append(i.id)
            elif i.id in al:
                rem.append(i.id)
            facts_kill_leaf(nfacts, i.id)
            # values derived from this phi are stale
        for i, v in phis:
            nvals.pop(i.id, None)
            if isinstance(v, str) and (v.startswith("c:") or v == "null"):
                nvals[i.id] = v
            elif isinstance(v, int) and v in vals:
                nvals[i.id] = vals[v]
            elif i.ty == "i1" and isinstance(v, int):
                nvals[i.id] = v
        # an i1 recorded as "value of v" is stale once v is recomputed; only keep in the same block use
        for r in rem:
            nal.discard(r)
        for a in add:
            nal.add(a)
        if rem and not nal and ts == "O":
            t = blk.insts[-1]
            self.rep("leak", t, "last reference is overwritten")
            return
        yield (succ, (ts, frozenset(nal)), nfacts, nvals)


def const_set(v, vals):
    if isinstance(v, str):
        if v.startswith("c:"):
            try:
                return frozenset([int(v[2:])])
            except ValueError:
                return None
        return None
    if isinstance(v, int):
        w = vals.get(v)
        if isinstance(w, frozenset):
            return w
        if isinstance(w, str) and w.startswith("c:"):
            return const_set(w, vals)
    return None


def lower(z):
    """greatest known lower bound of an abstract value"""
    if isinstance(z, tuple):
        return z[1]
    if not isinstance(z, frozenset):
        z = const_set(z, {})
    return min(z) if z else None


def join_vals(a, b):
    """a: the value stored so far, b: the incoming one"""
    if not isinstance(a, tuple) and not isinstance(b, tuple):
        x, y = (z if isinstance(z, frozenset) else const_set(z, {}) for z in (a, b))
        if x is None or y is None:
            return None
        r = x | y
        if len(r) <= 3:
            return r
        return ("ge", min(r)) if min(r) == min(x) else None
    la, lb = lower(a), lower(b)
    if la is None or lb is None or lb < la:
        return None           # widening: a falling bound is dropped
    return ("ge", la)


def arith(op, p, q):
    if op == "add":
        return p + q
    if op == "sub":
        return p - q
    if op == "mul":
        return p * q
    return p << (q & 63)


def icmp(pred, p, q):
    if pred[0] == "u" and pred != "une":
        p &= (1 << 64) - 1
        q &= (1 << 64) - 1
    t = pred if pred in ("eq", "ne") else pred[1:]
    return {"eq": p == q, "ne": p != q, "lt": p < q, "le": p <= q, "gt": p > q, "ge": p >= q}[t]


def facts_kill_leaf(facts, iid):
    for k in [k for k, v in facts.items() if iid in v[1]]:
        del facts[k]


def facts_kill_tag(facts, tag):
    for k in [k for k, v in facts.items() if tag in v[2]]:
        del facts[k]


def must_pass(f, blocks):
    """every path from entry to a return goes through one of the blocks"""
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen or b in blocks:
            continue
        seen.add(b)
        blk = f.blocks[b]
        if blk.insts[-1].op == "ret":
            return False
        work += [x.id for x in blk.succ]
    return True


_rpo_cache = {}


def rpo_order(f):
    r = _rpo_cache.get(f)
    if r is not None:
        return r
    seen = set([0])
    order = []
    stack = [(0, iter([s.id for s in f.blocks[0].succ]))]
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter([x.id for x in f.blocks[s].succ])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    r = {b: n for n, b in enumerate(order)}
    _rpo_cache[f] = r
    return r


def check(own):
    """Run every resource of every repository function; returns reports."""
    reports = []
    n = 0
    take_by_cb = callback_contracts(own)
    for f in own.fns:
        for i in f.calls():
            k = own.call_owned(i)
            if k:
                r = own.run(f, ("call", i), "N")
                n += 1
                for x in r.reports:
                    x.rkind = k
                reports += r.reports
            cs = own.sum.get(i.callee)
            if cs and cs.giveout:
                for a, kind in cs.giveout.items():
                    if isinstance(i.args[a], int) and f.insts[i.args[a]].op == "alloca":
                        r = own.run(f, ("out", i, a), "N")
                        n += 1
                        for x in r.reports:
                            x.rkind = kind
                        reports += r.reports
            p = own.isl.get(i.callee)
            if p is not None and (own.prog.callee(i) is None or own.prog.callee(i).decl):
                for a, kind in enumerate(p.args):
                    if kind == "giveout" and a < len(i.args) and isinstance(i.args[a], int) and \
                            f.insts[i.args[a]].op == "alloca":
                        r = own.run(f, ("out", i, a), "N")
                        n += 1
                        for x in r.reports:
                            x.rkind = "isl"
                        reports += r.reports
        # parameters
        contract = {}
        pr = own.annot.get(f.short)
        if pr:
            for k, a in enumerate(pr.args):
                if a in ("take", "keep"):
                    contract[k] = a
        for k, a in take_by_cb.get(f.name, {}).items():
            contract[k] = a
        for k, p in enumerate(f.params):
            if p["ty"] != "ptr":
                continue
            c = contract.get(k)
            r = own.run(f, ("param", k), "O" if c == "take" else "B")
            n += 1
            for x in r.reports:
                x.rkind = "isl" if c else "param"
            reports += r.reports
            if c == "keep" and "freed" in r.outcomes:
                rp = Report("release-of-borrowed", f, r.name, f.blocks[0].insts[0], "annotated as kept by the caller but released here")
                rp.rkind = "isl"
                reports.append(rp)
    own.checked = n
    return reports


def callback_contracts(own):
    r = {}
    for f in own.fns:
        for i in f.calls():
            p = own.isl.get(i.callee)
            if not p:
                continue
            for k, kinds in p.cb.items():
                if k < len(i.args) and isinstance(i.args[k], str) and i.args[k].startswith("f:"):
                    cb = i.args[k][2:]
                    for n, kd in enumerate(kinds):
                        if kd in ("take", "keep"):
                            r.setdefault(cb, {})[n] = kd
    return r
