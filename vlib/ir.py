"""Build /repo's current sources to LLVM IR (both dispatch configurations), resolve the IR with
tools/irdump and load it.  Nothing of /repo is executed."""
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GMLIB_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
CACHE = os.path.join(VERIF, ".build")

CPU_DEFS = ["SSE2", "AVX2", "AES", "MOVBE", "BMI2", "RDSEED", "RDRAND", "PCLMUL"]
SIMD_FLAGS = ["-DCPU_FLAG_" + d for d in CPU_DEFS] + [
    "-msse2", "-mavx2", "-maes", "-mmovbe", "-mbmi2", "-mrdseed", "-mrdrnd", "-mpclmul"]
BASE_DEFS = ["-DSUPPORT_SM3_YANG15", "-DSUPPORT_SM4_LANG18"]


class AnalysisError(Exception):
    """The analysis itself could not proceed (missing anchor, unsupported construct)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode()[-4000:]))
    return p.stdout


def _hash_files(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(extra.encode())
    return h.hexdigest()[:24]


def irdump_tool():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    key = _hash_files([src], "v1")
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "irdump-" + key)
    if not os.path.exists(out):
        flags = run([LLVM + "llvm-config", "--cxxflags"]).decode().split()
        tmp = out + ".%d" % os.getpid()
        run(["g++", "-std=c++17", "-O1", "-fno-rtti"] + flags + ["-w", src, "-o", tmp,
            "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.rename(tmp, out)
    return out


def _all_files(d):
    r = []
    for root, _, files in os.walk(d):
        for f in files:
            r.append(os.path.join(root, f))
    return r


def repo_sources():
    r = [p for p in _all_files(os.path.join(REPO, "src")) if p.endswith(".cpp")]
    if len(r) < 15:
        raise AnalysisError("only %d library sources found" % len(r))
    return sorted(r)


def build_module(config, harness=(), defs=None, srcs=None):
    """config: 'portable' | 'simd'.  Returns parsed Module for all of src/ plus harness files."""
    harness = [os.path.join(VERIF, "harness", h) for h in harness]
    sources = (srcs if srcs is not None else repo_sources()) + list(harness)
    flags = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-access-control",
             "-DNDEBUG", "-w", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
    flags += BASE_DEFS if defs is None else list(defs)
    if config == "simd":
        flags += SIMD_FLAGS
    elif config == "sse2":
        flags += ["-DCPU_FLAG_SSE2", "-msse2"]
    elif config != "portable":
        raise AnalysisError("config " + config)
    deps = _all_files(os.path.join(REPO, "include")) + _all_files(os.path.join(REPO, "src")) + \
        _all_files(os.path.join(VERIF, "harness")) + [os.path.join(VERIF, "tools", "irdump.cpp")]
    key = _hash_files(deps, "v2" + " ".join(flags) + "|" + "|".join(sources))
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "mod-" + key + ".json")
    if not os.path.exists(out):
        tool = irdump_tool()
        with tempfile.TemporaryDirectory(prefix="gmlib-ir-") as td:
            def one(i_s):
                i, s = i_s
                o = os.path.join(td, "%d.bc" % i)
                run([LLVM + "clang++"] + flags + ["-c", "-emit-llvm", s, "-o", o])
                return o
            with ThreadPoolExecutor(8) as ex:
                bcs = list(ex.map(one, enumerate(sources)))
            link = os.path.join(td, "all.bc")
            run([LLVM + "llvm-link"] + bcs + ["-o", link])
            opt = os.path.join(td, "opt.bc")
            # closures are dissolved into the function that defines them
            syms = [l.split()[-1] for l in run([LLVM + "llvm-nm", link]).decode().splitlines() if l.split()]
            lam = ["-force-attribute=%s:alwaysinline" % n for n in syms if re.search(r"Ul\w*E\d*_cl", n)]
            run([LLVM + "opt"] + lam + ["-passes=%salways-inline,function(sroa)" % ("forceattrs," if lam else ""), link, "-o", opt])
            js = run([tool, opt])
            tmp = out + ".%d" % os.getpid()
            with open(tmp, "wb") as f:
                f.write(js)
            os.rename(tmp, out)
            # keep the cache small
            mods = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith("mod-") and f.endswith(".json")),
                          key=os.path.getmtime)
            for m in mods[:-40]:
                try:
                    os.unlink(m)
                except OSError:
                    pass
    with open(out) as f:
        return Module(json.load(f), config)


class Ty:
    __slots__ = ("k", "n", "elt", "fields", "size", "alloc", "eltsize", "name", "w")


class Instr:
    __slots__ = ("op", "id", "ty", "a", "x", "loc", "idx")


class Func:
    def __init__(self, mod, d):
        self.mod = mod
        self.d = d
        self.name = d["name"]
        self.dem = d["dem"]
        self.decl = "blocks" not in d
        self.nounwind = d["nounwind"]
        self.noreturn = d["noreturn"]
        self.args = d["args"]
        self.ret = mod.types[d["ret"]]
        self.file = d.get("file")
        self.line = d.get("line")
        self._blocks = None
        self._loops = None

    def __repr__(self):
        return self.dem

    @property
    def blocks(self):
        if self._blocks is None:
            bl = []
            for b in self.d["blocks"]:
                ins = []
                for k, i in enumerate(b["ins"]):
                    o = Instr()
                    o.op = i["o"]
                    o.id = i.get("i", -1)
                    o.ty = self.mod.types[i["t"]]
                    o.a = i["a"]
                    o.x = i
                    o.loc = i.get("l")
                    o.idx = k
                    ins.append(o)
                bl.append(ins)
            self._blocks = bl
            self._prep()
        return self._blocks

    def succs(self, b):
        t = self._blocks[b][-1]
        if t.op in ("br", "invoke"):
            return list(t.x["s"])
        if t.op == "switch":
            s = t.x["s"]
            return [s[0]] + [c[1] for c in s[1:]]
        return []

    def _prep(self):
        n = len(self._blocks)
        self.preds = [[] for _ in range(n)]
        self.succ = [self.succs(b) for b in range(n)]
        for b in range(n):
            for s in self.succ[b]:
                self.preds[s].append(b)
        # reverse postorder
        seen = [False] * n
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = [1 << 30] * n
        for i, b in enumerate(reversed(post)):
            self.rpo[b] = i
        # dominators as bit sets, and the block defining each register
        order = list(reversed(post))
        full = (1 << n) - 1
        self.dom = [full] * n
        self.dom[0] = 1
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                d = full
                for q in self.preds[b]:
                    if seen[q]:
                        d &= self.dom[q]
                d |= 1 << b
                if d != self.dom[b]:
                    self.dom[b] = d
                    ch = True
        self.defblk = {i.id: b for b in range(n) for i in self._blocks[b] if i.id >= 0}
        # loop chain per block: list of headers outermost..innermost
        L = self.d["loops"]
        self.chain = [[] for _ in range(n)]
        depth_of = []
        for i, l in enumerate(L):  # preorder: parents first
            for b in l["b"]:
                self.chain[b].append(l["h"])
        self.headers = {l["h"] for l in L}
        self.loopblocks = {l["h"]: set(l["b"]) for l in L}


class Module:
    def __init__(self, d, config):
        self.config = config
        self.types = []
        for t, size, alloc in d["types"]:
            o = Ty()
            o.k = t[0]
            o.size = size
            o.alloc = alloc
            o.n = o.elt = o.fields = o.eltsize = o.name = o.w = None
            if o.k == "i" or o.k == "f":
                o.w = t[1]
            elif o.k == "v":
                o.n, o.elt = t[1], self.types[t[2]]
            elif o.k == "a":
                o.n, o.elt, o.eltsize = t[1], self.types[t[2]], t[3]
            elif o.k == "s":
                o.fields = [(f[0], self.types[f[1]]) for f in t[1]]
                o.name = t[2]
            self.types.append(o)
        self.files = d["files"]
        self.globals = {g["name"]: g for g in d["globals"]}
        self.funcs = {f["name"]: Func(self, f) for f in d["funcs"]}
        self.aliases = dict(d["aliases"])
        self.bydem = {}
        for f in self.funcs.values():
            self.bydem.setdefault(f.dem, f)

    def loc(self, l):
        if not l:
            return "?"
        f = self.files[l[0]]
        f = os.path.normpath(f)
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return "%s:%d" % (f, l[1])

    def find(self, pattern, one=True):
        """Function(s) whose demangled name matches the regex (defined only)."""
        r = [f for f in self.funcs.values() if not f.decl and re.search(pattern, f.dem)]
        if not one:
            return r
        if len(r) != 1:
            raise AnalysisError("anchor %r matches %d functions %s" % (pattern, len(r), [f.dem for f in r][:6]))
        return r[0]

    def fn(self, qual):
        """The unique defined function with this qualified name (no parameter list)."""
        r = [f for f in self.funcs.values() if not f.decl and
             (f.dem == qual or f.dem.split("(")[0] == qual or f.dem.split("(")[0].endswith(" " + qual))]
        if len(r) != 1:
            raise AnalysisError("anchor function %s: %d definitions" % (qual, len(r)))
        return r[0]
