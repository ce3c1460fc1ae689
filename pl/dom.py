"""Dominators, post-dominators and dominating branch conditions."""


def rpo(f):
    seen, out = set(), []
    st = [(f.blocks[0], iter(f.blocks[0].succ))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s.id not in seen:
                seen.add(s.id)
                st.append((s, iter(s.succ)))
                break
        else:
            out.append(b)
            st.pop()
    return out[::-1]


def idoms(f):
    if getattr(f, "_idom", None) is not None:
        return f._idom
    order = rpo(f)
    num = {b.id: k for k, b in enumerate(order)}
    idom = {order[0].id: order[0].id}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.pred:
                if p.id in idom:
                    if new is None:
                        new = p.id
                    else:
                        x, y = p.id, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b.id) != new:
                idom[b.id] = new
                ch = True
    f._idom = idom
    return idom


def dominates(f, a, b):
    """block a dominates block b"""
    idom = idoms(f)
    x = b.id
    if x not in idom:
        return True
    while True:
        if x == a.id:
            return True
        if idom[x] == x:
            return False
        x = idom[x]


def edge_dominates(f, src, dst, b):
    """every path to b takes the edge src->dst"""
    if not dominates(f, dst, b):
        return False
    return all(p is src or dominates(f, dst, p) for p in dst.pred)


def dominating_conditions(f, b):
    """[(cond value, truth)] of branch edges every path to b takes"""
    out = []
    idom = idoms(f)
    x = b.id
    chain = []
    while x in idom:
        chain.append(f.blocks[x])
        if idom[x] == x:
            break
        x = idom[x]
    for d in chain:
        if not d.insts:
            continue
        t = d.insts[-1]
        if t.op == "br" and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
            for k in (0, 1):
                if edge_dominates(f, d, f.blocks[t.succ[k]], b):
                    out += implied(f, t.d["cond"], k == 0, 0)
    return out


def implied(f, c, truth, depth):
    """conditions that hold when c is truth (short-circuit phis opened up)"""
    out = [(c, truth)]
    if depth > 8 or not isinstance(c, int):
        return out
    i = f.insts[c]
    if i.op == "xor" and i.ops[1] in ("c:-1", "c:1"):
        return out + implied(f, i.ops[0], not truth, depth + 1)
    if i.op == "phi" and i.ty == "i1":
        bad = ("c:0",) if truth else ("c:1", "c:-1")
        live = [x for x in i.d["inc"] if x[0] not in bad]
        if len(live) == 1:
            v, blk = live[0]
            pb = f.blocks[blk]
            t = pb.insts[-1]
            if t.op == "br" and len(t.succ) == 2:
                for k in (0, 1):
                    if t.succ[k] == i.bb.id and t.succ[1 - k] != i.bb.id:
                        out += implied(f, t.d["cond"], k == 0, depth + 1)
            out += dominating_conditions(f, pb)
            out += implied(f, v, truth, depth + 1)
    return out


def pidoms(f):
    """immediate post-dominators (-1: virtual exit)"""
    if getattr(f, "_pidom", None) is not None:
        return f._pidom
    # post-dominator sets by iteration on the reverse graph
    exits = [b for b in f.blocks if not b.succ]
    EXIT = -1
    order = []
    seen = set()

    def preds(b):
        return b.pred
    st = []
    for e in exits:
        if e.id in seen:
            continue
        seen.add(e.id)
        st.append((e, iter(preds(e))))
        while st:
            b, it = st[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id)
                    st.append((s, iter(preds(s))))
                    break
            else:
                order.append(b)
                st.pop()
    order = order[::-1]
    num = {EXIT: -1}
    for k, b in enumerate(order):
        num[b.id] = k
    idom = {EXIT: EXIT}
    ch = True
    while ch:
        ch = False
        for b in order:
            succ = [s.id for s in b.succ] or [EXIT]
            new = None
            for s in succ:
                if s in idom:
                    if new is None:
                        new = s
                    else:
                        x, y = s, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b.id) != new:
                idom[b.id] = new
                ch = True
    f._pidom = idom
    return idom


def control_deps(f):
    """block id -> set of (branch block id, successor index) it is control dependent on"""
    if getattr(f, "_cd", None) is not None:
        return f._cd
    pd = pidoms(f)
    cd = {b.id: set() for b in f.blocks}
    for b in f.blocks:
        if len(b.succ) < 2 or b.id not in pd:
            continue
        stop = pd[b.id]
        t = b.insts[-1]
        for k, s in enumerate(t.succ):
            x = s
            n = 0
            while x != stop and x in pd and x != -1 and n < 10000:
                cd[x].add((b.id, k))
                x = pd[x]
                n += 1
    f._cd = cd
    return cd


def iteration_deps(f, l, noreturn):
    """control dependence within one iteration of a loop: block id -> {(branch block id, successor index)}.
    Back edges and exits end the iteration; edges to blocks that never return are no choice."""
    c = getattr(l, "_icd", None)
    if c is not None:
        return c
    X = -1
    succ, live = {}, {}
    for b in l.blocks:
        o = []
        blk = f.blocks[b]
        t = blk.insts[-1]
        ss = [(k, s) for k, s in enumerate(t.succ)] if t.op in ("br", "switch") else []
        for k, s in ss:
            if noreturn(f.blocks[s]):
                continue
            o.append((k, s if s in l.blocks and s != l.header.id else X))
        succ[b] = o
    # post-dominator sets
    full = set(l.blocks) | {X}
    pd = {b: set(full) for b in l.blocks}
    pd[X] = {X}
    order = [b.id for b in rpo(f) if b.id in l.blocks][::-1]
    ch = True
    while ch:
        ch = False
        for b in order:
            ss = [s for k, s in succ[b]]
            n = set.intersection(*[pd[s] for s in ss]) if ss else set()
            n = n | {b}
            if n != pd[b]:
                pd[b] = n
                ch = True
    cd = {b: set() for b in l.blocks}
    for b in l.blocks:
        if len({s for k, s in succ[b]}) < 2:
            continue
        for k, s in succ[b]:
            for y in pd[s]:
                if y != X and (y == b or y not in pd[b]):
                    cd[y].add((b, k))
    l._icd = cd
    return cd
