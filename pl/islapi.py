"""Ownership contracts of the isl API, read from the installed isl headers, and
of the repository's own functions that carry isl's annotations, read from the
preprocessed sources (the annotations are macros that expand to nothing in the
real build; here they expand to marker identifiers)."""
import os, re, subprocess
from . import front

MARK = ["-D__isl_give=__PL_GIVE__", "-D__isl_take=__PL_TAKE__", "-D__isl_keep=__PL_KEEP__",
        "-D__isl_null=__PL_NULL__", "-D__isl_export=", "-D__isl_overload=", "-D__isl_constructor=", "-D__isl_subclass(x)="]


def strip(s):
    s = re.sub(r'^#.*$', '', s, flags=re.M)
    return s


def split_args(a):
    out, depth, cur = [], 0, ""
    for ch in a:
        if ch in "([":
            depth += 1
        elif ch in ")]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def match_paren(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] == "(":
            d += 1
        elif s[k] == ")":
            d -= 1
            if d == 0:
                return k
    return -1


class Proto:
    def __init__(self, name, ret, args):
        self.name = name
        self.give = "__PL_GIVE__" in ret
        self.nullret = "__PL_NULL__" in ret
        self.ret = re.sub(r"__PL_\w+__", "", ret).strip()
        self.args = []      # take / keep / giveout / other
        self.cb = {}        # arg index -> list of arg kinds of the callback
        self.arg_text = []
        for k, a in enumerate(args):
            kind = "other"
            m = re.search(r"\(\s*\*\s*\w*\s*\)\s*\(", a)
            if m:
                kind = "fn"
                j = match_paren(a, m.end() - 1)
                inner = split_args(a[m.end():j])
                self.cb[k] = ["take" if "__PL_TAKE__" in x else "keep" if "__PL_KEEP__" in x else "other" for x in inner]
            elif "__PL_TAKE__" in a:
                kind = "take"
            elif "__PL_KEEP__" in a:
                kind = "keep"
            elif "__PL_GIVE__" in a and "**" in a.replace(" ", ""):
                kind = "giveout"
            elif "isl_" in a and "*" in a and "isl_ctx" not in a:
                kind = "keep?"
            self.args.append(kind)
            self.arg_text.append(a.strip())


def parse(text, pat):
    protos = {}
    text = strip(text)
    for m in re.finditer(r"\b(%s)\s*\(" % pat, text):
        name = m.group(1)
        j = match_paren(text, m.end() - 1)
        if j < 0:
            continue
        after = text[j + 1:j + 400].lstrip()
        if not (after[:1] in ";{" or after.startswith("__attribute__") or after.startswith("__asm")):
            continue
        # return type text: back to previous ; } or {
        k = max(text.rfind(c, 0, m.start()) for c in ";{}")
        ret = text[k + 1:m.start()].strip()
        if not ret or re.search(r"[=(,?:]|\breturn\b|\belse\b", ret.replace('extern "C"', "")):
            continue
        if "*" not in ret and not re.match(r"^[\w\s\*\"]+$", ret):
            continue
        args = split_args(text[m.end():j])
        p = Proto(name, ret, args)
        old = protos.get(name)
        if old:
            # definition or later declaration: keep the more annotated one
            if sum(a in ("take", "keep", "giveout", "fn") for a in p.args) + p.give < \
               sum(a in ("take", "keep", "giveout", "fn") for a in old.args) + old.give:
                continue
        protos[name] = p
    return protos


def isl_protos():
    hdrs = ["ctx", "val", "val_gmp", "space", "local_space", "id", "aff", "aff_type", "vec", "mat", "point", "set", "map", "union_set", "union_map",
            "constraint", "flow", "ilp", "lp", "printer", "polynomial", "schedule", "options", "multi", "list", "arg", "stream", "obj", "hash"]
    inc = "\n".join("#include <isl/%s.h>" % h for h in hdrs if os.path.exists("/usr/include/isl/%s.h" % h))
    out = front.run([front.CLANG, "-w", "-E", "-P", "-x", "c"] + MARK + ["-"], input=inc) if False else \
        subprocess.run([front.CLANG, "-w", "-E", "-P", "-x", "c"] + MARK + ["-"], input=inc, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if out.returncode != 0:
        raise front.AnalysisBroken("preprocessing the isl headers failed: " + out.stderr[-1000:])
    r = parse(out.stdout, r"isl_\w+")
    # functions of the repository's isl fork (the submodule is empty here); contracts as in that fork
    r.update(parse("""
    __PL_GIVE__ isl_basic_map *isl_basic_map_range_factor_domain(__PL_TAKE__ isl_basic_map *bmap);
    __PL_GIVE__ isl_pw_aff *isl_pw_aff_from_map_dim(__PL_KEEP__ isl_map *map, int pos);
    isl_bool isl_map_dim_is_single_valued(__PL_KEEP__ isl_map *map, unsigned pos);
    """, r"isl_\w+"))
    return r


def repo_protos():
    """Annotated functions of the repository (declared or defined there)."""
    import tempfile, shutil
    work = tempfile.mkdtemp(prefix="plutosa.pp.")
    try:
        gen = os.path.join(work, "gen")
        os.makedirs(gen)
        res = {}
        for name, path, flags in front.units(gen):
            p = subprocess.run([front.CLANGXX if name.endswith("cpp") else front.CLANG] + flags + MARK + ["-E", path],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode != 0:
                raise front.AnalysisBroken("preprocessing %s failed: %s" % (path, p.stderr[-800:]))
            # keep only text coming from the repository
            keep = []
            on = False
            for l in p.stdout.splitlines():
                m = re.match(r'^# \d+ "([^"]*)"', l)
                if m:
                    fn = m.group(1)
                    on = fn.startswith(front.REPO) or fn.startswith(work) or not fn.startswith("/")
                    continue
                if on:
                    keep.append(l)
            txt = "\n".join(keep)
            if "__PL_" not in txt:
                continue
            for n, pr in parse(txt, r"[a-zA-Z_]\w*").items():
                if pr.give or any(a in ("take", "keep", "giveout") for a in pr.args):
                    old = res.get(n)
                    if old and sum(a in ("take", "keep", "giveout") for a in old.args) + old.give >= \
                       sum(a in ("take", "keep", "giveout") for a in pr.args) + pr.give:
                        continue
                    res[n] = pr
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)
