"""Comparison of effects that contain values the normal form does not express.

Such a value stands for anything: `arg0->val[var(2)+1]` is read as `arg0->val[?]`.  Two effects agree when they are the same
except for what stands for anything."""
import re
from collections import Counter

OPEN, CLOSE = "([{", ")]}"


def parse(s, vague):
    """-> term: "?" | list of (sign, [text | (open, [term])])"""
    pos = 0

    def segment(ends):
        nonlocal pos
        terms, cur, buf, sign, bad = [], [], [], "", False

        def flush():
            if buf:
                cur.append("".join(buf))
                buf.clear()

        def term():
            nonlocal sign
            flush()
            if cur or sign:
                terms.append((sign, list(cur)))
                cur.clear()

        while pos < len(s):
            c = s[pos]
            if c in ends:
                break
            if c in OPEN or (c == "<" and buf and buf[-1] == "i" and (len(buf) == 1 or not buf[-2].isalnum())):
                w = re.search(r"([A-Za-z_]\w*)$", "".join(buf))
                if c == "(" and w and w.group(1) in vague:
                    bad = True
                close = CLOSE[OPEN.index(c)] if c in OPEN else ">"
                flush()
                pos += 1
                cur.append((c, args(close)))
                pos += 1
                continue
            if c == ">" and buf and buf[-1] == "-":
                buf.append(c)
                pos += 1
                continue
            if c == "-" and pos + 1 < len(s) and s[pos + 1] == ">":
                buf.append(c)
                pos += 1
                continue
            if c in "+-":
                term()
                sign = c
                pos += 1
                continue
            if c == "?":
                bad = True
            buf.append(c)
            pos += 1
        term()
        return "?" if bad else terms

    def args(close):
        nonlocal pos
        out = []
        while True:
            out.append(segment({close, ",", ";"}))
            if close == "}":
                out[-1] = item(out[-1])
            if pos >= len(s) or s[pos] == close:
                return out
            pos += 1
            while pos < len(s) and s[pos] == " ":
                pos += 1

    out = []
    while True:
        # the words of an effect: place := value, call and arguments
        out.append(segment({" ", ",", ";"}))
        if pos >= len(s):
            if len(out) > 2 and out[1] == [("", [":="])] and has(out[0]):
                out = [[(g, [blank_piece(p) for p in ps]) for g, ps in out[0]] if out[0] != "?" else "?"] + [blank(t) for t in out[1:]]
            return out
        pos += 1


def item(t):
    """what is done to a new object"""
    if t == "?":
        return t
    place = []
    for sign, ps in t:
        for p in ps:
            if isinstance(p, str) and ":=" in p:
                return [("", [blank_piece(q) for q in place])] if has([("", place)]) and rounds(t) else t
            place.append(p)
    return t


def rounds(t):
    return t != "?" and any(not isinstance(p, str) and (p[0] == "<" or any(rounds(x) for x in p[1])) for _, ps in t for p in ps)


def blank(t):
    """the place is not known: which round of the loop does what to it is not either"""
    return "?" if rounds(t) else t


def blank_piece(p):
    if isinstance(p, str):
        return p
    return (p[0], ["?"] if p[0] == "<" else [blank(x) for x in p[1]])


def has(t):
    if t == "?":
        return True
    return any(not isinstance(p, str) and any(has(x) for x in p[1]) for _, ps in t for p in ps)


def agree(a, b, budget=None):
    if a == "?" or b == "?":
        return True
    if a == b:
        return True
    if len(a) != len(b):
        return False
    if len(a) == 1:
        return a[0][0] == b[0][0] and pieces(a[0][1], b[0][1])
    # sums: the terms in any order
    left = list(b)
    for sg, ps in sorted(a, key=lambda t: has([t])):
        for k, (sh, qs) in enumerate(left):
            if sg.replace("+", "") == sh.replace("+", "") and pieces(ps, qs):
                del left[k]
                break
        else:
            return False
    return True


def pieces(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
            continue
        if x[0] != y[0]:
            return False
        if x[0] == "{":
            # a new object: what was done to it, in any order
            if not alike([[t] for t in x[1]], [[t] for t in y[1]]):
                return False
        elif len(x[1]) != len(y[1]) or not all(agree(p, q) for p, q in zip(x[1], y[1])):
            return False
    return True


def effects(a, b):
    return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))


def alike(xs, ys):
    """every effect of one agrees with some of the other"""
    return all(any(effects(x, y) for y in ys) for x in xs) and all(any(effects(x, y) for x in xs) for y in ys)


_memo = {}


def read(s, vague):
    if s not in _memo:
        _memo[s] = parse(s, vague)
    return _memo[s]


def opaque(s, vague):
    """the values in it that are not expressed, with how often they occur"""
    out = Counter()
    for m in re.finditer(r"(?<![\w>.])(%s)\(" % "|".join(sorted(vague)), s):
        k, d = m.end(), 1
        while k < len(s) and d:
            d += (s[k] == "(") - (s[k] == ")")
            k += 1
        out[s[m.start():k]] += 1
    if "<?>" in s:
        out["<?>"] += s.count("<?>")
    return out


def differ(now, then, vague, rx, clash):
    """-> [(part, facts, now, then)]: a row that agrees with none of the other side's that its conditions allow"""
    out = []
    for r in sorted(set(now) | set(then)):
        if rx.search(r):
            continue
        a, b = now.get(r, [({}, ())]), then.get(r, [({}, ())])
        ea, eb = ({e for f, es in x for e in es} for x in (a, b))
        va, vb = (sum((opaque(e, vague) for e in x), Counter()) for x in (ea, eb))
        if va != vb and not ea < eb:
            continue             # other values carried round loops: nothing to compare with
        a, b = ([({k: v for k, v in f.items() if not rx.search(k)}, es) for f, es in x] for x in (a, b))
        for xs, ys, side in ((a, b, 0), (b, a, 1)):
            for f, es in xs:
                ok = [g for g, gs in ys if not clash(f, g)]
                if not ok:
                    continue
                if any(not clash(f, g) and alike([read(e, vague) for e in es], [read(e, vague) for e in gs]) for g, gs in ys):
                    continue
                other = next(gs for g, gs in ys if not clash(f, g))
                out.append((r, f) + ((es, other) if side == 0 else (other, es)))
    return out
