"""C11: copies are complete and independent of the original."""
from ..ctx import Result
from ..must import Must, D, S, fld, GOOD, BAD, UNKNOWN, base_callee, MEMCPY, line
from ..term import show, contains, mkadd, NULL, subterm, atom, implied_empty
from ..dom import dominating_conditions
from ..expr import CASTS

VAL, DEEP, SKIP = ("val",), ("deep",), None


def ld(o, *fs):
    t = o
    for f in fs:
        t = ("ld", ("fld", t, f))
    return t


def arr(count, inner, size):
    """count: function of the object giving the number of elements"""
    return ("arr", count, inner, size)


def cnt(struct, field, off=0):
    return lambda o: mkadd(ld(o, struct + "." + field), ("c", off))


PC, PM, ST = "pluto_constraints", "pluto_matrix", "statement"
SPEC = {
    PC: {"val": arr(cnt(PC, "nrows"), arr(cnt(PC, "ncols"), VAL, 8), 8), "buf": SKIP, "alloc_nrows": SKIP, "alloc_ncols": SKIP,
         "is_eq": arr(cnt(PC, "nrows"), VAL, 4), "names": arr(cnt(PC, "ncols", -1), DEEP, 8), "context": VAL, "next": DEEP},
    PM: {"val": arr(cnt(PM, "nrows"), arr(cnt(PM, "ncols"), VAL, 8), 8), "alloc_nrows": SKIP, "alloc_ncols": SKIP, "context": VAL},
    "dependence": {"src_acc": VAL, "dest_acc": VAL, "dpolytope": DEEP, "bounding_poly": DEEP, "src_unique_dpolytope": DEEP,
                   "depsat_poly": DEEP, "satvec": SKIP, "dirvec": SKIP, "cst": DEEP, "bounding_cst": DEEP},
    ST: {"id": SKIP, "domain": DEEP, "iterators": arr(cnt(ST, "dim"), DEEP, 8), "text": DEEP,
         "is_orig_loop": arr(cnt(ST, "dim"), VAL, 1), "trans": DEEP, "evicted_hyp": DEEP,
         "hyp_types": arr(lambda o: ld(o, ST + ".trans", PM + ".nrows"), VAL, 4),
         "reads": arr(cnt(ST, "nreads"), DEEP, 8), "writes": arr(cnt(ST, "nwrites"), DEEP, 8),
         "parent_compute_stmt": VAL, "intra_stmt_dep_cst": DEEP, "pstmt": VAL},
    "pluto_access": {"name": DEEP, "mat": DEEP},
    "pLoop": {"stmts": arr(cnt("pLoop", "nstmts"), VAL, 8)},
    "band": {"loop": DEEP, "children": SKIP},
    "pluto_dep_list": {"dep": VAL, "next": DEEP},
}
# function: (struct, source argument, destination argument or None for the result, fields not copied)
OPTIONAL = ("names", "next")     # may be null in the source
COPIERS = {
    "pluto_constraints_dup": (PC, 0, None, ()),
    "pluto_constraints_dup_single": (PC, 0, None, ("next",)),
    "pluto_constraints_copy": (PC, 1, 0, ("context",)),
    "pluto_constraints_copy_single": (PC, 1, 0, ("context", "next")),
    "pluto_matrix_dup": (PM, 0, None, ()),
    "pluto_dep_dup": ("dependence", 0, None, ()),
    "pluto_stmt_dup": (ST, 0, None, ()),
    "pluto_access_dup": ("pluto_access", 0, None, ()),
    "pluto_loop_dup": ("pLoop", 0, None, ()),
    "pluto_band_dup": ("band", 0, None, ()),
    "pluto_deps_list_dup": ("pluto_dep_list", 0, None, ()),
}
SHALLOW = {n for n, c in COPIERS.items() if "next" in c[3]}
DEEP_NAMES = {n for n, c in COPIERS.items() if c[2] is None and n not in SHALLOW} | {n + "!" for n, c in COPIERS.items() if c[2] is not None and n not in SHALLOW}


class Copy(Must):
    def events(self, fr, aD, aS, kind, oD, oS, top=True):
        """(instructions that are the copy, loop headers that are, reasons)"""
        f, T = fr.f, fr.T
        ev, hd, why = set(), {}, []
        if kind[0] in ("val", "deep"):
            for i in f.allinsts():
                if i.op == "store" and T.t(i.ops[1]) == aD:
                    r = self.value(fr, i.ops[0], aS)
                    if r == GOOD and kind[0] == "deep" and T.t(i.ops[0]) == ("ld", aS):
                        why.append("line %d shares the original's object" % i.line())
                        continue
                    if r in (GOOD, UNKNOWN):
                        ev.add(i)
                    else:
                        why.append("line %d sets it to something else" % i.line())
                elif i.op == "call":
                    if self.is_copy_into(fr, i, aD, aS):
                        ev.add(i)
                    elif kind[0] == "val" and base_callee(i) in MEMCPY and aD[0] == "fld" and \
                            T.t(i.args[0]) == aD[1] and T.t(i.args[1]) == aS[1]:
                        ev.add(i)
        else:
            _, count, inner, size = kind
            cD, cS = count(oD), count(oS)
            counts = [cS, cD]
            PD, PS = ("ld", aD), ("ld", aS)
            for i in f.calls():
                if base_callee(i) in MEMCPY and T.t(i.args[0]) == PD:
                    if T.t(i.args[1]) != PS or inner != VAL:
                        why.append("line %d copies something else" % i.line())
                        continue
                    n = T.t(i.args[2])
                    ok = [("mul",) + tuple(sorted((c, ("c", size)), key=repr)) for c in counts] + ([c for c in counts] if size == 1 else [])
                    if n in ok:
                        ev.add(i)
                    elif n[0] == "mul" and any(contains(n, c) for c in counts) or n[0] in ("c", "ld", "add"):
                        why.append("line %d copies %s bytes" % (i.line(), show(n)))
                    else:
                        ev.add(i)
                elif i.op == "call" and i.callee in ("malloc", "calloc"):
                    pass

            for i in f.allinsts():
                if i.op == "store" and T.t(i.ops[1]) == aD:
                    r, w = self.made(fr, i.ops[0], i.bb, aD, aS, kind, oD, oS)
                    if r:
                        ev.add(i)
                    else:
                        why += w

            def inner_events(iv, l):
                e, h, w = self.events(fr, ("idx", PD, iv), ("idx", PS, iv), inner, oD, oS, False)
                e = {i for i in e if i.bb.id in l.blocks}
                h = {x: y for x, y in h.items() if x in l.blocks}
                return e, h, (w if e or h else [])

            def mk(iv):
                return ("idx", PS, iv), [count(oS)] if inner[0] == "arr" else []
            g, bad = self.loops_over(fr, counts, inner_events, mk)
            hd.update(g)
            why += bad
        if top:
            for i in f.calls():
                n = self.p.cname(i)
                if n in COPIERS and self.own_object(fr, i, n, oD, oS):
                    st, ks, kd, skip = COPIERS[n]
                    fname = aD[2].split(".", 1)[1]
                    if fname not in skip:
                        ev.add(i)
                    continue
                sub = self.callee_frame(fr, i)
                if sub is None:
                    continue
                r, w = self.must(sub, aD, aS, kind, oD, oS)
                if r == "must":
                    ev.add(i)
                else:
                    why += w
        return ev, hd, why

    def made(self, fr, v, bb, aD, aS, kind, oD, oS, depth=0):
        """is the value an array that a function has made from the source's array?"""
        f = fr.f
        if not isinstance(v, int) or depth > 4:
            return False, []
        i = f.insts[v]
        if i.op in CASTS:
            return self.made(fr, i.ops[0], bb, aD, aS, kind, oD, oS, depth + 1)
        if i.op in ("phi", "select"):
            ok, why = False, []
            inc = [(x, f.blocks[b]) for x, b in i.d["inc"]] if i.op == "phi" else [(x, i.bb) for x in i.ops[1:]]
            for k, (x, b) in enumerate(inc):
                if x == "null":
                    conds = list(dominating_conditions(f, b)) if i.op == "phi" else [(i.ops[0], k == 0)]
                    if i.op == "phi" and b.insts[-1].op == "br" and len(b.insts[-1].succ) == 2:
                        conds.append((b.insts[-1].d["cond"], b.insts[-1].succ[0] == i.bb.id))
                    if any(implied_empty(key, tr, aS, [kind[1](oS)]) for c, t in conds for key, tr in atom(fr.T, f, c, t)):
                        continue
                    return False, why
                r, w = self.made(fr, x, b, aD, aS, kind, oD, oS, depth + 1)
                why += w
                if not r:
                    return False, why
                ok = True
            return ok, why
        if i.op != "call" or not any(fr.T.t(a) == ("ld", aS) or fr.T.t(a) == oS for a in i.args if not isinstance(a, dict)):
            return False, []
        sub = self.callee_frame(fr, i, ("ld", aD))
        if sub is None or sub.f.retty != "ptr":
            return False, []
        r, w = self.must(sub, aD, aS, kind, oD, oS)
        return r == "must", w

    def cleared(self, fr, aD, aS):
        """with a null source field, the destination field is null at the end of every path"""
        T = fr.T
        ev = set()
        for i in fr.f.allinsts():
            if i.op == "store" and T.t(i.ops[1]) == aD and (i.ops[0] == "null" or T.t(i.ops[0]) == ("ld", aS)):
                ev.add(i)
            elif i.op == "call":
                n = self.p.cname(i)
                if n in COPIERS and self.own_object(fr, i, n, D, S) and aD[2].split(".", 1)[1] not in COPIERS[n][3]:
                    ev.add(i)
                    continue
                sub = self.callee_frame(fr, i)
                if sub is not None and self.cleared(sub, aD, aS):
                    ev.add(i)
        if not ev:
            return False
        return self.search(fr, aD, [], lambda i: i in ev, set(), nonnull=aS) is None

    def own_object(self, fr, i, n, oD, oS):
        st, ks, kd, skip = COPIERS[n]
        if fr.T.t(i.args[ks]) != oS:
            return False
        return fr.T.t(i.id) == oD if kd is None else fr.T.t(i.args[kd]) == oD

    def must(self, fr, aD, aS, kind, oD, oS, target=None):
        ev, hd, why = self.events(fr, aD, aS, kind, oD, oS)
        if not ev and not hd:
            return "never", why
        fname = aD[2]
        evs, heads = ev, set(hd)
        T = fr.T

        def event(i):
            if i in evs:
                return True
            if i.op == "store":
                if T.t(i.ops[1]) == aD and T.t(i.ops[0]) != ("ld", aD):
                    if isinstance(i.ops[0], int) and i.ops[0] in fr.fresh:
                        return False
                    return None
            elif i.op == "call":
                if base_callee(i) in MEMCPY + ("memset", "bzero") and T.t(i.args[0]) in (aD[1], ("ld", aD) if kind[0] == "arr" else aD[1]):
                    return None
                g = self.p.callee(i)
                if g is not None and not g.decl and any(T.t(a) == oD for a in i.args) and self.writes(g, fname):
                    return None
            return False
        counts = [kind[1](oS)] if kind[0] == "arr" else []
        b = self.search(fr, aS, counts, event, heads, target=target)
        if b is None:
            return "must", why
        return "may", why + ["a path to line %d does not copy it" % line(b)]


def run(ctx):
    r = Result()
    r.rule = ("For every function that copies an object, each field of the struct has to be copied on every path that returns the "
              "copy: plain fields by value, owned objects and strings by a copying function, arrays by a loop or block copy over "
              "exactly the elements the object has; only a null source may skip it. No pointer the copy owns may be the original's.")
    p, E = ctx.prog, ctx.eff
    M = Copy(p, E, DEEP_NAMES)
    M.shallow = SHALLOW
    n = 0
    for name, (st, ks, kd, skip) in sorted(COPIERS.items()):
        f = p.fn(name)
        if f is None or st not in p.structs:
            continue
        n += 1
        bind = {ks: S}
        if kd is not None:
            bind[kd] = D
        fr = M.frame(f, bind, ((f.name,),), kd is None)
        for m in p.structs[st]:
            fname, ty = m[0], m[1]
            if fname in skip:
                continue
            kind = SPEC[st].get(fname, VAL if "*" not in ty else DEEP)
            if kind is SKIP:
                continue
            r.obligations += 1
            q = st + "." + fname
            res, why = M.must(fr, fld(D, q), fld(S, q), kind, D, S)
            r.samples.append("%s copies %s.%s" % (name, st, fname))
            if res != "must":
                r.bad("%s|%s" % (name, fname), "%s:%d: %s does not copy the field %s of its source on every path (%s)" % (
                    f.file, f.line, name, fname, "; ".join(dict.fromkeys(why)) or "no copy of it found"))
            elif kind[0] == "arr" and kd is not None:
                order(M, fr, f, name, st, q, kind, r)
            if kd is not None and fname in OPTIONAL:
                r.obligations += 1
                if not M.cleared(fr, fld(D, q), fld(S, q)):
                    r.bad("%s|%s|stale" % (name, fname), "%s:%d: %s leaves the destination's old %s in place when the source has none" % (
                        f.file, f.line, name, fname))
        shared(p, E, f, name, st, ks, kd, r)
    r.floor("copying_functions", n, 9)
    r.coverage["functions_walked"] = M.analysed
    return r


def order(M, fr, f, name, st, q, kind, r):
    """a loop bounded by the copy's own count needs that count to be the source's already"""
    aD, aS = fld(D, q), fld(S, q)
    c = kind[1](D)
    base = c if c[0] == "ld" else c[1]
    if base[0] != "ld" or base[1][0] != "fld" or base[1][1] != D:
        return
    cf = base[1][2]
    ev, hd, why = M.events(fr, aD, aS, kind, D, S)
    # only events whose extent is read from the copy
    tg = []
    for i in ev:
        if base_callee(i) in MEMCPY and contains(fr.T.t(i.args[2]), base):
            tg.append(i.bb)
        elif i.op == "call" and base_callee(i) not in MEMCPY and M.p.cname(i) not in COPIERS:
            tg.append(i.bb)
    for h in hd:
        tg.append(f.blocks[h])
    for b in tg:
        evc, hdc, w = M.events(fr, fld(D, cf), fld(S, cf), VAL, D, S)
        if any(i.bb is b for i in evc):
            continue
        x = M.must(fr, fld(D, cf), fld(S, cf), VAL, D, S, target=b)
        if x[0] != "must":
            r.bad("%s|%s|order" % (name, q.split(".")[1]),
                  "%s:%d: %s copies %s before it has taken over %s, which says how many elements there are" % (
                      f.file, line(b), name, q.split(".")[1], cf.split(".")[1]))


def shared(p, E, f, name, st, ks, kd, r):
    e = E.eff[f.name]
    pairs = []
    if kd is None:
        roots = {x[0] for x in e.rets if x[0][0] == "n"}
        for d, ss in e.lheap.items():
            if d[0] in roots or d[0][0] == "n":
                pairs += [(d, s) for s in ss]
    pairs += list(e.stores)
    for d, s in pairs:
        if s[0] != ("a", ks) or (kd is not None and d[0] != ("a", kd)):
            continue
        fs = [x for x in d[1:] if "." in str(x)]
        if not fs:
            continue
        last = fs[-1]
        sn, fn = last.split(".", 1)
        kind = SPEC.get(sn, {}).get(fn, DEEP)
        if kind is SKIP:
            kind = DEEP
        inner = kind
        while inner[0] == "arr":
            inner = inner[2]
        r.obligations += 1
        if inner[0] == "val" and (kind[0] == "val" or d[-1] in ("[]", "*")):
            continue
        if len(s) == 1:
            continue
        if "*" not in s:
            continue
        r.bad("%s|%s|shared" % (name, fn), "%s:%d: the copy made by %s keeps the original's %s (both own it)" % (f.file, f.line, name, fn))
