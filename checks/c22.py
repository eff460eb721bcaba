"""C22: random sources fill every requested byte with output of successful draws, or throw."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr, Finding, UNDEF
from vlib.anf import AnfDomain, tobits, mk, atom_bit
from vlib.lens import lengths_kept
from vlib import anf
from vlib.util import *

MODS = {}
LIMIT = 400


class Source:
    """draws: each is a fresh value, reported successful or not according to the outcome script"""

    def __init__(self, script, rest):
        self.script, self.rest, self.n, self.good, self.asked = script, rest, 0, [], 0

    def draw(self, w):
        k = self.n
        self.n += 1
        if self.n > LIMIT:
            raise Finding("loop", "keeps asking a source that always fails", "?")
        ok = self.script[k] if k < len(self.script) else self.rest
        self.asked = max(self.asked, k + 1)
        name = "draw%d" % k if ok else "failed%d" % k
        if ok:
            self.good.append(name)
        return mk(tuple(atom_bit(("in", name, 0, j)) for j in range(w))), ok


class Dom(AnfDomain):
    src = None

    def intrinsic(self, eng, st, name, args, i):
        if name.startswith(("llvm.x86.rdrand.", "llvm.x86.rdseed.")):
            w = int(name.split(".")[3])
            v, ok = self.src.draw(w)
            return [v, 1 if ok else 0]
        return AnfDomain.intrinsic(self, eng, st, name, args, i)


def engine(m, src):
    d = Dom()
    d.src = src
    eng = Engine(m, d)
    fine = lambda w: (lambda e, st, f, a: src.draw(w)[0])
    eng.hook(r"^std::random_device::_M_getval", fine(32))
    eng.hook(r"^std::random_device::operator\(\)", fine(32))
    eng.hook(r"^std::random_device::(random_device|~random_device|_M_init|_M_fini)", lambda e, st, f, a: None)
    eng.hook(r"^(rand|random|lrand48)$", lambda e, st, f, a: mk(tuple(tobits(src.draw(31)[0], 31)) + tuple(tobits(0, 1))))
    eng.hook(r"^(srand|srandom)$", lambda e, st, f, a: None)
    eng.hook(r"^time$", lambda e, st, f, a: 12345)
    eng.hook(r"^std::(__cxx11::)?basic_string<|^std::allocator<|^std::runtime_error::", lambda e, st, f, a: a[0] if a else None)
    return eng


ATOM = {}


def good_bits(src, w):
    r = {}
    for n in src.good:
        for j in range(w):
            r[atom_bit(("in", n, 0, j))] = (n, j)
    return r


def check_bits(cells, src, seen=None):
    """every bit is one distinct bit of a successful draw"""
    ok = good_bits(src, 64)
    seen = {}
    for k, c in enumerate(cells):
        if c is UNDEF or c is None:
            return "byte %d is never written" % k
        for j, b in enumerate(tobits(c, 8)):
            if b not in ok:
                return "bit %d of byte %d is %s, not output of a successful draw" % (j, k, anf.show_bit(b, 3))
            if b in seen:
                return "bit %d of byte %d repeats bit %s" % (j, k, seen[b])
            seen[b] = (j, k)
    return ""


def fill(config, nm, n, script, rest, must):
    """gen() of n bytes; must: 'fill', 'throw' or 'any'"""
    m = MODS[config]
    src = Source(script, rest)
    eng = engine(m, src)
    st = State()
    f = m.fn("h_gen_" + nm)
    key = eng.new_obj(st, "out", n, "output")
    label = "%s %s gen(%d) draws %s%s" % (config, nm, n, "".join("SF"[not x] for x in script), "S..." if rest else "F...")
    outs = eng.call(st, f, [Ptr(key, 0), n])
    kinds = {o[0] for o in outs}
    if kinds == {"throw"}:
        bad = "" if must != "fill" else "fails although the source delivers"
        return Result(label, not bad, real_where(eng, f), bad, stats(eng))
    if kinds != {"ret"}:
        raise AnalysisError("%s: %s" % (label, kinds))
    if must == "throw":
        return Result(label, False, real_where(eng, f), "returns normally although every draw failed", stats(eng))
    o = eng.obj(outs[0][1], key)
    cells = [o.cells.get(i, UNDEF) for i in range(n)]
    cells = [c if c is UNDEF else eng.join_bytes([c]) for c in cells]
    bad = check_bits(cells, src)
    return Result(label, not bad, real_where(eng, f), bad, stats(eng))


def scripts(retries, draws):
    """all outcome prefixes with up to `retries`+2 failures in a row per draw"""
    r = [()]
    out = []
    for d in range(draws):
        nxt = []
        for s in r:
            for k in range(retries + 3):
                nxt.append(s + (False,) * k + (True,))
        r = nxt
        out += r
    return out


def value(config, nm, w, script):
    m = MODS[config]
    src = Source(script, True)
    eng = engine(m, src)
    f = m.fn("h_rand%d_%s" % (w, nm))
    outs = eng.call(State(), f, [])
    label = "%s %s rand<%d bit> draws %s" % (config, nm, w, "".join("SF"[not x] for x in script))
    if {o[0] for o in outs} == {"throw"}:
        return Result(label, not all(script), real_where(eng, f), "fails although the source delivers", stats(eng))
    v = outs[0][2]
    bits = tobits(v, w)
    bad = check_bits([mk(bits[8 * i:8 * i + 8]) for i in range(w // 8)], src)
    return Result(label, not bad, real_where(eng, f), bad, stats(eng))


def lens(c):
    return lengths_kept(MODS[c], c, ["/rng/"], 1)


def many(jobs):
    out = []
    for fn, a in jobs:
        try:
            out.append(fn(*a))
        except Finding as e:
            out.append(Result("%s%s" % (fn.__name__, a), False, e.where or "?", "%s: %s" % (e.kind, e.msg)))
    return out


def main():
    ck = Check("C22", "other", "every bit of the output is a distinct bit of a draw reported successful, in every success/failure sequence; otherwise the call throws", 300, ASSUME)
    quick = ck.tier == "quick"
    for c in ("portable", "simd"):
        MODS[c] = build_module(c, ["rng.cpp"], srcs=src_of("memory_utils/"))
    jobs = []
    ns = list(range(0, 34)) if quick else range(0, 100)
    for c in MODS:
        for nm in ("std", "cstd"):
            for n in ns:
                jobs.append((fill, (c, nm, n, (), True, "fill")))
            jobs += [(value, (c, nm, w, ())) for w in (8, 64)]
    for fam in ("rdrand64", "rdrand32", "rdseed64", "rdseed32"):
        wd = int(fam[-2:]) // 8
        for R in (0, 1, 2, 10):
            nm = "%s_%d" % (fam, R)
            for n in ns:
                jobs.append((fill, ("simd", nm, n, (), True, "fill")))
                if n:
                    jobs.append((fill, ("simd", nm, n, (), False, "throw")))
                    jobs.append((fill, ("simd", nm, n, (True,), False, "any" if n <= wd else "throw")))
            for w in (8, 64):
                for s in ((), (False, True), (False,) * (R + 1) + (True,), (False,) * (R + 2) + (True,)):
                    jobs.append((value, ("simd", nm, w, s)))
            for n in (1, wd - 1, wd, wd + 1, 2 * wd, 2 * wd + 3):
                nd = -(-n // wd)
                if R == 10 and nd > 1:
                    ss = [(True,) * a + (False,) * k + (True,) for a in range(nd) for k in range(R + 3)]
                else:
                    ss = scripts(R, min(nd, 3 if R < 2 else 2))
                for s in ss:
                    jobs.append((fill, ("simd", nm, n, s, True, "any")))
    ck.run([(many, (jobs[k::64],)) for k in range(64)] + [(lens, (c,)) for c in MODS])
    ck.finish()


main()
