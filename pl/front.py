"""Front end: compiles /repo's current sources to LLVM IR (nothing is run) and
loads the resolved program for the analyses."""
import json, os, re, subprocess, sys, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLUTO_REPO", "/repo")
TOOLS = os.path.join(VERIF, "tools")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang-18" if shutil.which("clang-18") else "clang"
CLANGXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
OPT = "opt-18" if shutil.which("opt-18") else "/usr/lib/llvm-18/bin/opt"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link"


class AnalysisBroken(Exception):
    """The analysis could not be carried out (exit 2, never a verdict)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    return p.stdout


def ensure_irdump():
    """Build the IR dumper if it is not there (setup_cmd does it too)."""
    exe = os.path.join(BUILD, "irdump")
    src = os.path.join(TOOLS, "irdump.cpp")
    stamp = exe + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mktemp(prefix="irdump.", dir=BUILD)
    run([CLANGXX, "-O1", "-std=c++17", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include",
         "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
         "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.replace(tmp, exe)
    open(stamp, "w").write(h)
    return exe


def base_flags(gen, defs=()):
    return ["-w", "-g", "-fstandalone-debug", "-fPIC", "-DGLPK", "-DLIB_PLUTO", "-DSCOPLIB_INT_T_IS_LONGLONG",
            "-DCLOOG_INT_GMP", "-I" + REPO + "/include", "-I" + REPO + "/lib", "-I" + gen,
            "-include", os.path.join(TOOLS, "absent_isl.h")] + list(defs)


def sources():
    out = run([sys.executable, os.path.join(TOOLS, "sources.py"), REPO + "/lib/Makefile.am"])
    return out.split()


def units(gen, defs=()):
    """(source path, flags) of every translation unit of the build."""
    with open(os.path.join(gen, "version.h"), "w") as f:
        f.write('#define PLUTO_VERSION "0"\n')
    run([sys.executable, os.path.join(TOOLS, "without_piplib.py"), REPO + "/lib/constraints.c",
         os.path.join(gen, "constraints.c")])
    us = []
    for s in sources():
        p = os.path.join(REPO, "lib", s)
        if s == "constraints.c":
            p = os.path.join(gen, "constraints.c")
        us.append((s, p, base_flags(gen, defs) + (["-std=c++17"] if s.endswith(".cpp") else [])))
    return us


TURN = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def const(v):
    return isinstance(v, str) and (v.startswith("c:") or v == "null")


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "loc", "d", "bb", "fn", "idx")

    def __init__(self, d, bb, fn, idx):
        self.id = d["id"]
        self.op = d["op"]
        self.ty = d.get("ty")
        self.ops = d.get("ops", [])
        self.loc = d.get("loc")
        self.d = d
        self.bb = bb
        self.fn = fn
        self.idx = idx
        if self.op == "icmp" and const(self.ops[0]) and not const(self.ops[1]):
            # a constant on the left of a comparison: the same one, turned round
            d["pred"] = TURN.get(d["pred"], d["pred"])
            self.ops.reverse()

    @property
    def callee(self):
        c = self.d.get("callee")
        if isinstance(c, str) and c.startswith("f:"):
            return c[2:]
        return None

    @property
    def args(self):
        return self.d.get("args", [])

    @property
    def succ(self):
        return self.d.get("succ", [])

    def line(self):
        return self.loc[1] if self.loc else 0

    def where(self):
        f = self.fn.file
        l = self.fn.line
        if self.loc:
            l = self.loc[1]
            if self.loc[0]:
                f = relpath(self.loc[0])
        return "%s:%d" % (f, l)

    def __repr__(self):
        return "<%s %%%d %s %s>" % (self.fn.name, self.id, self.op, self.d.get("callee", self.ops))


class Block:
    __slots__ = ("id", "insts", "succ", "pred", "fn")

    def __init__(self, i, fn):
        self.id = i
        self.fn = fn
        self.insts = []
        self.succ = []
        self.pred = []


class Function:
    def __init__(self, d):
        self.name = d["name"]
        self.dem = d.get("dem", d["name"])
        m = re.match(r"^(?:.*::)?([~\w]+)\(", self.dem)
        self.short = m.group(1) if m else self.dem
        self.decl = d["decl"]
        self.internal = d["internal"]
        self.linkonce = d.get("linkonce", False)
        self.noreturn = d.get("noreturn", False)
        self.file = relpath(d.get("file", "")) if d.get("file") else ""
        self.line = d.get("line", 0)
        self.sig = d.get("sig")
        self.retty = d.get("retty")
        self.params = d["params"]
        self.names = d.get("names", {})
        self.blocks = []
        self.insts = {}
        for bi, b in enumerate(d.get("blocks", [])):
            blk = Block(bi, self)
            for k, io in enumerate(b):
                i = Inst(io, blk, self, k)
                blk.insts.append(i)
                self.insts[i.id] = i
            self.blocks.append(blk)
        for b in self.blocks:
            if b.insts:
                t = b.insts[-1]
                s = t.d.get("succ", [])
                b.succ = [self.blocks[x] for x in s]
        for b in self.blocks:
            for s in b.succ:
                if b not in s.pred:
                    s.pred.append(b)

    @property
    def in_repo(self):
        return bool(self.file) and not self.file.startswith("/") and not self.decl

    def allinsts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def calls(self):
        for i in self.allinsts():
            if i.op == "call":
                yield i

    def vname(self, v):
        n = self.names.get(str(v))
        if n:
            return n[0]
        if isinstance(v, str) and v.startswith("a"):
            k = int(v[1:])
            if k < len(self.params):
                return self.params[k]["name"]
        return None

    def vtype(self, v):
        if isinstance(v, str) and v.startswith("a") and self.sig:
            k = int(v[1:])
            if k + 1 < len(self.sig):
                return self.sig[k + 1]
        n = self.names.get(str(v))
        if n:
            return n[1]
        return None

    def __repr__(self):
        return "<fn %s>" % self.name


def relpath(p):
    for pre in (REPO + "/", "/repo/"):
        if p.startswith(pre):
            return p[len(pre):]
    return p


class Program:
    def __init__(self, d):
        self.structs = d["structs"]
        self.globals = {g["name"]: g for g in d["globals"]}
        self.functions = {}
        for f in d["functions"]:
            fn = Function(f)
            self.functions[fn.name] = fn
        self.repo_functions = [f for f in self.functions.values() if f.in_repo]
        self.by_short = {}
        for f in self.repo_functions:
            self.by_short.setdefault(f.short, []).append(f)

    def fn(self, short):
        l = self.by_short.get(short)
        return l[0] if l else None

    def callee(self, inst):
        n = inst.callee
        return self.functions.get(n) if n else None

    def cname(self, inst):
        """Short (demangled, unqualified) name of the direct callee."""
        n = inst.callee
        if n is None:
            return None
        f = self.functions.get(n)
        return f.short if f else n


def merge(ds):
    """Link the units: definitions win over declarations, inline functions are
    kept once; struct layouts are those of the first unit that defines them."""
    out = {"structs": {}, "globals": [], "functions": []}
    gs, fs = {}, {}
    for d in ds:
        for n, ms in d["structs"].items():
            if n not in out["structs"] or (not out["structs"][n] and ms):
                out["structs"][n] = ms
        for g in d["globals"]:
            o = gs.get(g["name"])
            if o is None or (o["decl"] and not g["decl"]):
                gs[g["name"]] = g
        for f in d["functions"]:
            o = fs.get(f["name"])
            if o is None or (o["decl"] and not f["decl"]):
                fs[f["name"]] = f
    out["globals"] = list(gs.values())
    out["functions"] = list(fs.values())
    return out


NAMES = set()


def isnew(f):
    """A function of the repository that the reviewed tree does not have."""
    if not NAMES:
        NAMES.update(json.load(open(os.path.join(VERIF, "pl", "tables", "names.json"))))
    if f["decl"] or not f.get("file") or relpath(f["file"]).startswith("/"):
        return False
    m = re.match(r"^(?:.*::)?([~\w]+)\(", f.get("dem", f["name"]))
    return (m.group(1) if m else f.get("dem", f["name"])) not in NAMES


def helpers(d):
    """Functions to be looked at as part of their callers: helpers split off from reviewed functions."""
    return [f["name"].split("@@")[0] for f in d["functions"] if isnew(f)]


def dropunused(d):
    """New functions that every caller has inlined and nothing else refers to."""
    new = {f["name"] for f in d["functions"] if isnew(f)}
    if not new:
        return
    used = set()
    for f in d["functions"]:
        if f["decl"]:
            continue
        t = json.dumps(f.get("blocks", []))
        used |= {n for n in new if n != f["name"] and '"f:%s"' % n in t}
    t = json.dumps(d["globals"])
    used |= {n for n in new if n in t}
    d["functions"] = [f for f in d["functions"] if f["name"] not in new or f["name"] in used]


def load(keep=None, defs=()):
    exe = ensure_irdump()
    work = tempfile.mkdtemp(prefix="plutosa.")
    try:
        gen = os.path.join(work, "gen")
        os.makedirs(gen)
        us = units(gen, defs)
        if len(us) < 15:
            raise AnalysisBroken("only %d translation units found in lib/Makefile.am" % len(us))

        def comp(u):
            name, path, flags = u
            out = os.path.join(work, name.replace("/", "_") + ".bc")
            cc = CLANGXX if name.endswith(".cpp") else CLANG
            run([cc] + flags + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
                                "-emit-llvm", "-c", path, "-o", out], cwd=work)
            return out
        def dump(u):
            bc = comp(u)
            mem = bc + ".m2r.bc"
            js = bc + ".json"

            def tojson(bc, passes, *flags):
                run([OPT, "-passes=" + passes, bc, "-o", mem] + list(flags))
                with open(js, "w") as f:
                    p = subprocess.run([exe, mem, u[0]], stdout=f, stderr=subprocess.PIPE, text=True)
                    if p.returncode != 0:
                        raise AnalysisBroken("irdump failed: " + p.stderr[-2000:])
                return json.load(open(js))
            d = tojson(bc, "function(mem2reg)")
            new = helpers(d)
            if new:
                inl = bc + ".inl.bc"
                run([exe, "--inline", ",".join(new), bc, inl])
                d = tojson(inl, "function(mem2reg)")
            return d
        with ThreadPoolExecutor(8) as ex:
            d = merge(list(ex.map(dump, us)))
        dropunused(d)
        if keep:
            json.dump(d, open(keep, "w"))
        prog = Program(d)
        prog.units = [u[0] for u in us]
        if len(prog.repo_functions) < 300:
            raise AnalysisBroken("only %d functions analysed" % len(prog.repo_functions))
        return prog
    finally:
        shutil.rmtree(work, ignore_errors=True)
