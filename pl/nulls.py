"""Absent results are noticed before they are used.

A value that can be absent (the result of a function that returns NULL in some
case) is assumed to be NULL and followed along every path on which that is
possible: phis and branches that depend on it (or on flags computed from it)
are resolved, everything else goes both ways.  Reaching a dereference, or a call
that dereferences it, is a violation.  What a function does with a NULL
parameter is computed the same way."""
from collections import deque
from .term import noreturn
from .must import base_callee

EXTERN = {"fopen", "fopen64", "strchr", "strrchr", "strstr", "fgets", "getenv", "strtok", "strpbrk", "memchr"}
# parameters that must not be NULL
STRICT = {"strlen": (0,), "strcpy": (0, 1), "strcat": (0, 1), "strncpy": (0, 1), "strcmp": (0, 1), "strncmp": (0, 1), "strdup": (0,),
          "sprintf": (0, 1), "fprintf": (0,), "fscanf": (0,), "__isoc99_fscanf": (0,), "__isoc23_fscanf": (0,), "fclose": (0,), "feof": (0,),
          "fgets": (0, 2), "fputs": (0, 1), "fgetc": (0,), "getc": (0,), "fputc": (1,), "fwrite": (0, 3), "fread": (0, 3), "memcpy": (0, 1),
          "memmove": (0, 1), "memset": (0,), "bzero": (0,), "atoi": (0,), "strtol": (0,), "qsort": (0,), "fflush": (), "rewind": (0,), "ungetc": (1,)}
PASS = ("bitcast", "freeze", "addrspacecast")
CAP = 6000


class Absent(int):
    """the NULL that is followed (as opposed to any other 0)"""


Z = Absent(0)


def within(t):
    """the objects on the way to an object"""
    r = []
    while True:
        r.append(t)
        if t[0] not in ("fld", "ld", "idx"):
            return r
        t = t[1]


class Nulls:
    def __init__(self, prog):
        self.p = prog
        self.need, self.may = {}, {}
        self.sites = {}

    # ------------------------------------------------------------ one assumption
    def follow(self, f, start, env, rets=None, pred=None, mark=None):
        """first place where a value that env says is NULL is dereferenced: (instruction, what) or None"""
        seen, work = set(), deque([(start[0], start[1], env, pred)])
        steps = 0
        while work:
            b, k, env, pred = work.popleft()
            key = (b.id, k, frozenset((a, y, y is Z) for a, y in env.items()))
            if key in seen:
                continue
            seen.add(key)
            steps += 1
            if steps > CAP:
                if rets is not None:
                    rets.append((None, {}))
                return None
            env = dict(env)
            if k == 0 and pred is not None:
                new = {}
                for i in b.insts:
                    if i.op != "phi":
                        break
                    v = next((x for x, pb in i.d["inc"] if pb == pred), None)
                    new[i.id] = self.val(f, v, env)
                    if i.id == mark and b is start[0] and steps == 1:
                        new[i.id] = Z
                for x, y in new.items():
                    if y is None:
                        env.pop(x, None)
                    else:
                        env[x] = y
            end = False
            for i in b.insts[k:]:
                if i.op == "phi":
                    continue
                r = self.bad(f, i, env) if rets is None else None
                if r is not None:
                    return r
                if i.op == "call" and i.d.get("noreturn"):
                    end = True
                    break
                if i.op == "store" and not isinstance(i.ops[1], dict):
                    y = self.val(f, i.ops[0], env)
                    env.pop(("m", i.ops[1]), None)
                    if y is not None and self.cell(f, i.ops[1]):
                        env[("m", i.ops[1])] = y
                elif i.op == "call":
                    for a in i.args:
                        if not isinstance(a, dict):
                            env.pop(("m", a), None)
                elif i.op == "ret" and rets is not None:
                    rets.append((self.val(f, i.ops[0], env) if i.ops and not isinstance(i.ops[0], dict) else None,
                                 {a[1]: y for a, y in env.items() if isinstance(a, tuple) and a[0] == "m"}))
                y = self.eval(f, i, env)
                if y is not None:
                    env[i.id] = y
                else:
                    env.pop(i.id, None)
            if end or noreturn(b):
                continue
            if rets is None and not any(y is Z for y in env.values()):
                continue
            t = b.insts[-1]
            succ = b.succ
            if t.op == "br" and len(t.succ) == 2:
                c = self.val(f, t.d["cond"], env)
                w = self.setting(f, t.d["cond"]) if c is None else None
                if w is not None and ("t", w[0]) in env:
                    c = int(env[("t", w[0])] == w[1])
                if c is not None:
                    succ = [f.blocks[t.succ[0 if c else 1]]]
                else:
                    # the branch teaches the condition on either side
                    for kk in (0, 1):
                        e2 = dict(env)
                        if isinstance(t.d["cond"], int):
                            if self.again(f, t.d["cond"]):
                                e2[t.d["cond"]] = 1 - kk
                            if w is not None:
                                e2[("t", w[0])] = w[1] if 1 - kk else not w[1]
                            self.learn(f, t.d["cond"], 1 - kk, e2)
                        work.append((f.blocks[t.succ[kk]], 0, e2, b.id))
                    continue
            for s in succ:
                work.append((s, 0, env, b.id))
        return None

    def setting(self, f, c):
        """a question about an option: (question, expected answer)"""
        n, want = 0, True
        while isinstance(c, int) and n < 6:
            i = f.insts[c]
            if i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
                want = want == (i.d["pred"] == "eq")
                t = self.terms(f).t(i.ops[0]), self.terms(f).t(i.ops[1])
                if all(self.option(x) for x in t):
                    return tuple(sorted(t, key=repr)), want
                return None
            if i.op == "xor" and i.ops[1] in ("c:1", "c:-1"):
                want = not want
            elif i.op not in ("zext", "sext", "trunc", "freeze"):
                return None
            c = i.ops[0]
            n += 1
        return None

    def option(self, t):
        if t[0] in ("c", "p"):
            return True
        return t[0] == "ld" and t[1][0] == "fld" and t[1][2].startswith("plutoOptions.")

    def edge(self, f, pb, b):
        """what is known when control goes from one block to the other"""
        from .dom import dominating_conditions, implied
        env = {}
        cs = list(dominating_conditions(f, pb))
        t = pb.insts[-1]
        if t.op == "br" and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
            cs += list(implied(f, t.d["cond"], t.succ[0] == b.id, 0))
        for c, truth in cs:
            if isinstance(c, int):
                env[c] = int(bool(truth))
                w = self.setting(f, c)
                if w is not None:
                    env[("t", w[0])] = w[1] if truth else not w[1]
        return env

    def again(self, f, c):
        """is the value looked at more than once?"""
        u = getattr(f, "_uses", None)
        if u is None:
            u = f._uses = {}
            for i in f.allinsts():
                for o in list(i.ops) + ([i.d["cond"]] if "cond" in i.d else []) + [v for v, _ in i.d.get("inc", ())] + list(getattr(i, "args", None) or ()):
                    if isinstance(o, int):
                        u[o] = u.get(o, 0) + 1
        return u.get(c, 0) > 1

    def cell(self, f, v):
        """a variable whose value can be kept track of"""
        if isinstance(v, str):
            return v[:1] == "a" and v[1:].isdigit()
        return f.insts[v].op == "alloca"

    def companions(self, g):
        """out-parameters that are 0 whenever the function returns NULL"""
        key = ("z", g.name)
        if key not in self.may:
            rets = []
            self.follow(g, (g.blocks[0], 0), {}, rets)
            rs = [m for v, m in rets if v == 0]
            self.may[key] = []
            self.may[key] = [k for k in range(len(g.params)) if self.counts(g, k) and all(m.get("a%d" % k) == 0 for m in rs)]
        return self.may[key]

    def counts(self, g, k):
        """is the parameter a place where the function leaves a number?"""
        for i in g.allinsts():
            if i.op == "store" and i.ops[1] == "a%d" % k:
                v = i.ops[0]
                if isinstance(v, str) and v.startswith("c:") or isinstance(v, int) and g.insts[v].ty.startswith("i"):
                    return True
            elif i.op == "call" and "a%d" % k in [a for a in i.args if not isinstance(a, dict)]:
                h = self.p.callee(i)
                if h is not None and not h.decl and h.blocks and h is not g and any(j < len(i.args) and i.args[j] == "a%d" % k for j in self.companions(h)):
                    return True
        return False

    def result(self, f, i):
        """what is known when the call returns NULL"""
        env = {i.id: Z}
        g = self.p.callee(i)
        if g is not None and not g.decl and g.blocks:
            for k in self.companions(g):
                if k < len(i.args) and not isinstance(i.args[k], dict) and self.cell(f, i.args[k]):
                    env[("m", i.args[k])] = 0
        return env

    def ptr(self, f, x):
        if isinstance(x, tuple):
            return False
        if isinstance(x, str):
            return True
        return f.insts[x].ty == "ptr"

    def learn(self, f, c, truth, env):
        i = f.insts[c]
        if i.op == "icmp" and i.d["pred"] in ("eq", "ne") and (i.d["pred"] == "eq") == bool(truth):
            a, b = i.ops
            for x, y in ((a, b), (b, a)):
                v = self.val(f, y, env)
                if v is not None and v != "set" and isinstance(x, int) and f.insts[x].ty != "ptr":
                    env[x] = v

    def val(self, f, v, env):
        if isinstance(v, dict) or v is None:
            return None
        if v == "null":
            return 0
        if isinstance(v, str) and v.startswith("c:"):
            try:
                return int(v[2:])
            except ValueError:
                return None
        if isinstance(v, str) and v.startswith(("g:", "s:")):
            return "set"
        return env.get(v)

    def eval(self, f, i, env):
        if i.op == "icmp":
            a, b = (self.val(f, o, env) for o in i.ops)
            if a is None or b is None:
                return None
            if "set" in (a, b):
                if 0 in (a, b) and i.d["pred"] in ("eq", "ne"):
                    return int(i.d["pred"] == "ne")
                return None
            pr = i.d["pred"]
            m = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}
            if a >= 0 and b >= 0:
                m.update({"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b})
            return int(m[pr]) if pr in m else None
        if i.op in PASS + ("zext", "sext", "trunc"):
            v = self.val(f, i.ops[0], env)
            if i.op == "trunc" and i.ty == "i1" and isinstance(v, int):
                return v & 1
            return v
        if i.op == "xor":
            a, b = (self.val(f, o, env) for o in i.ops)
            if a in (0, 1) and b in (1, -1):
                return 1 - a
            return None
        if i.op == "select":
            c = self.val(f, i.ops[0], env)
            if c is None:
                return None
            return self.val(f, i.ops[1 if c else 2], env)
        if i.op == "load":
            return env.get(("m", i.ops[0])) if not isinstance(i.ops[0], dict) else None
        if i.op == "add":
            a, b = (self.val(f, o, env) for o in i.ops)
            return None if a != 0 or b != 0 else 0
        if i.op in ("mul", "shl"):
            a, b = (self.val(f, o, env) for o in i.ops)
            return 0 if a == 0 or b == 0 and i.op == "mul" else None
        if i.op == "call":
            g = self.p.callee(i)
            if base_callee(i) in ("malloc", "realloc", "calloc", "strdup"):
                return "set"
            if g is not None and not g.decl and g.blocks and i.ty == "ptr":
                # NULL in, NULL out
                return None
        return env.get(i.id) if i.op == "phi" else None

    def base(self, f, v, env):
        """is the address NULL plus an offset?"""
        n = 0
        while isinstance(v, int) and f.insts[v].op in ("getelementptr",) + PASS and n < 12:
            v = f.insts[v].ops[0]
            n += 1
        return self.val(f, v, env) is Z, v

    def bad(self, f, i, env):
        if i.op == "load":
            z, v = self.base(f, i.ops[0], env)
            return (i, v, "read through") if z else None
        if i.op == "store":
            z, v = self.base(f, i.ops[1], env)
            return (i, v, "written through") if z else None
        if i.op == "call":
            c = base_callee(i)
            g = self.p.callee(i)
            for k, a in enumerate(i.args):
                if isinstance(a, dict) or a == "null":
                    continue
                if self.val(f, a, env) is not Z:
                    continue
                if c in ("memcpy", "memmove", "memset") and self.val(f, i.args[2], env) == 0:
                    continue
                if c in STRICT and k in STRICT[c]:
                    return (i, a, "passed to %s" % c)
                if g is not None and not g.decl and g.blocks and k < len(g.params) and \
                        self.needs(g, k, tuple((j, self.val(f, x, env)) for j, x in enumerate(i.args) if j != k and j < len(g.params) and
                                               not isinstance(x, dict) and isinstance(self.val(f, x, env), int))):
                    return (i, a, "passed to %s" % g.short)
        return None

    def needs(self, g, k, known=()):
        """does the function dereference parameter k when it is NULL?"""
        key = (g.name, k, known)
        if key not in self.need:
            self.need[key] = False
            self.need[key] = self.follow(g, (g.blocks[0], 0), {"a%d" % k: Z, **{"a%d" % j: y for j, y in known}}) is not None
        return self.need[key]

    # ------------------------------------------------------------ what can be absent
    def maybe(self, g):
        """can the function return NULL (not only when it was given NULL)?"""
        if g.name in self.may:
            return self.may[g.name]
        self.may[g.name] = False
        r = False
        for b in g.blocks:
            t = b.insts[-1] if b.insts else None
            if t is not None and t.op == "ret" and t.ops and not isinstance(t.ops[0], dict):
                r = r or self.null(g, t.ops[0], t.bb, set())
        self.may[g.name] = r
        return r

    def null(self, g, v, b, seen):
        if v == "null":
            return not self.given(g, b)
        if not isinstance(v, int) or v in seen:
            return False
        seen.add(v)
        i = g.insts[v]
        if i.op == "phi":
            return any(self.null(g, x, g.blocks[pb], seen) for x, pb in i.d["inc"])
        if i.op == "select":
            return any(self.null(g, x, b, seen) for x in i.ops[1:])
        if i.op in PASS:
            return self.null(g, i.ops[0], b, seen)
        if i.op == "call" and i.ty == "ptr":
            h = self.p.callee(i)
            if base_callee(i) in EXTERN:
                return not self.checked(g, v, b)
            return h is not None and not h.decl and bool(h.blocks) and self.maybe(h) and not self.checked(g, v, b)
        return False

    def given(self, g, b):
        """is the block reached only when a parameter (or part of one) is NULL?"""
        from .dom import dominating_conditions
        for c, truth in dominating_conditions(g, b):
            if isinstance(c, int) and g.insts[c].op == "icmp" and "null" in g.insts[c].ops:
                i = g.insts[c]
                if (i.d["pred"] == "eq") == truth:
                    v = next((o for o in i.ops if o != "null"), None)
                    if isinstance(v, str) and v[:1] == "a":
                        return True
        return False

    def checked(self, g, v, b):
        from .dom import dominating_conditions
        for c, truth in dominating_conditions(g, b):
            if isinstance(c, int) and g.insts[c].op == "icmp" and "null" in g.insts[c].ops and v in g.insts[c].ops:
                if (g.insts[c].d["pred"] == "ne") == truth:
                    return True
        return False

    # ------------------------------------------------------------ members that can be absent
    def terms(self, f):
        from .term import Terms
        if f.name not in self.sites:
            self.sites[f.name] = Terms(f)
        return self.sites[f.name]

    def writes(self, g, fld):
        """can calling the function set the member?"""
        key = ("w", fld)
        if key not in self.may:
            direct, callers = set(), {}
            for f in self.p.functions.values() if isinstance(self.p.functions, dict) else self.p.functions:
                if f.decl or not f.blocks:
                    continue
                T = None
                for i in f.allinsts():
                    if i.op == "store" and isinstance(i.ops[1], int) and f.insts[i.ops[1]].op == "getelementptr":
                        T = T or self.terms(f)
                        t = T.t(i.ops[1])
                        if t[0] == "fld" and t[2] == fld and i.ops[0] != "null" and self.given_object(f, t[1]):
                            direct.add(f.name)
                    elif i.op == "call":
                        h = self.p.callee(i)
                        if h is not None:
                            callers.setdefault(h.name, set()).add(f.name)
            work = list(direct)
            while work:
                for c in callers.get(work.pop(), ()):
                    if c not in direct:
                        direct.add(c)
                        work.append(c)
            self.may[key] = direct
        return g.name in self.may[key]

    def given_object(self, f, t):
        """is the object one that existed before the call?"""
        while t[0] in ("fld", "ld", "idx"):
            t = t[1]
        return not (t[0] == "v" and (f.insts[t[2]].op == "alloca" or f.insts[t[2]].op == "call" and self.fresh(f.insts[t[2]])))

    def fresh(self, i):
        c = base_callee(i)
        return c in ("malloc", "calloc") or (c or "").endswith(("_alloc", "_dup", "_dup_single"))

    def unchecked(self, f, i):
        """is there a path to this load of a member on which nobody has looked whether it is there (or set it)?"""
        return self.bare(f, self.terms(f).t(i.ops[0]), i.bb, i.idx, 0)

    def bare(self, f, A, bb, idx, depth):
        from .dom import implied
        T = self.terms(f)
        fld = A[2]
        seen, work = set(), [(bb, idx)]
        preds = {}
        for b in f.blocks:
            for s in b.succ:
                preds.setdefault(s.id, []).append(b)
        while work:
            b, k = work.pop()
            done = False
            for x in reversed(b.insts[:k]):
                if x.op == "store" and not isinstance(x.ops[1], dict) and T.t(x.ops[1]) == A:
                    if x.ops[0] == "null":
                        return True
                    done = True
                    break
                if x.op == "call":
                    g = self.p.callee(x)
                    if g is not None and not g.decl and g.blocks and self.writes(g, fld) and \
                            any(not isinstance(a, dict) and T.t(a) in within(A[1]) for a in x.args):
                        done = True
                        break
                    if T.t(x.id) == A[1]:
                        if depth:
                            return True
                        done = True            # what a call hands out
                        break
            if done:
                continue
            ps = preds.get(b.id, [])
            if not ps:
                if A[1][0] == "p" and depth < 3 and self.excused(f, A[1][1], fld, depth):
                    continue
                return True
            for pb in ps:
                t = pb.insts[-1]
                ok = False
                if t.op == "br" and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
                    for c, tr in implied(f, t.d["cond"], t.succ[0] == b.id, 0):
                        if self.there(f, T, c, tr, A):
                            ok = True
                if not ok and pb.id not in seen:
                    seen.add(pb.id)
                    work.append((pb, len(pb.insts)))
        return False

    def there(self, f, T, c, truth, A):
        """does the condition say that the member is there?"""
        if not isinstance(c, int) or f.insts[c].op != "icmp" or "null" not in f.insts[c].ops:
            return False
        j = f.insts[c]
        o = next((y for y in j.ops if y != "null"), None)
        return o is not None and (j.d["pred"] == "ne") == truth and T.t(o) == ("ld", A)

    def excused(self, f, k, fld, depth):
        """do all callers look before they call?"""
        sites = [(g, c) for g in self.p.repo_functions if g is not f for c in g.calls() if self.p.callee(c) is f]
        for g, c in sites:
            if k >= len(c.args) or isinstance(c.args[k], dict):
                return False
            if self.bare(g, ("fld", self.terms(g).t(c.args[k]), fld), c.bb, c.idx, depth + 1):
                return False
        return bool(sites)
