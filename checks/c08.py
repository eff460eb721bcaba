import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr, UNDEF, Finding, Sel
from vlib import anf
from vlib.anf import AnfDomain, inp, tobits, mk, xor_b, atom_bit, Bits
from vlib.lens import lengths_kept
from vlib.util import *

MODS = {}


def xor(config, fn, n, alias, off):
    m = MODS[config]
    eng = Engine(m, AnfDomain())
    st = State()
    f = m.fn(fn)
    key = "%s %s of %d bytes%s%s" % (config, fn[2:], n, {"": "", "a": ", output is the first operand", "b": ", output is the second operand",
                                                     "ab": ", all the same buffer"}[alias], " at odd addresses" if off else "")
    # every buffer is exactly as large as allowed: any other access is out of bounds
    A = Ptr(mem_values(eng, st, "a", [0] * off + inp("a", n)).obj, off)
    B = Ptr(mem_values(eng, st, "b", [0] * off + inp("b", n)).obj, off)
    if alias == "ab":
        B = A
    O = {"": Ptr(eng.new_obj(st, "out", n), 0), "a": A, "b": B, "ab": A}[alias]
    wb = inp("a", n) if alias == "ab" else inp("b", n)
    want = [xor_b(x, y) for x, y in zip(inp("a", n), wb)]
    st, _ = eng.call1(st, f, [O, A, B, n])
    res = [compare(key, read(eng, st, O, n), want, eng, f)]
    for p, nm in ((A, "a"), (B, "b")):
        if p.obj != O.obj:
            res.append(compare(key + ": operand kept", read(eng, st, p, n), inp(nm, n), eng, f))
    if off and O.obj in (A.obj, B.obj):
        res.append(compare(key + ": byte before", read(eng, st, Ptr(O.obj, 0), off), [0] * off, eng, f))
    return res


def mem(config, w, e):
    m = MODS[config]
    n = w // 8
    eng = Engine(m, AnfDomain())
    st = State()
    src = mem_input(eng, st, "p", n)
    f = m.fn("h_load%d_%s" % (w, e))
    st, v = eng.call1(st, f, [src])
    b = inp("p", n)
    order = b if e == "le" else b[::-1]
    want = [x for c in order for x in tobits(c, 8)]
    got = list(tobits(v, w))
    res = [Result("%s load%d_%s" % (config, w, e), got == want, real_where(eng, f), "value differs", stats(eng))]
    dst = Ptr(eng.new_obj(st, "q", n), 0)
    bits = tuple(atom_bit(("in", "v", 0, j)) for j in range(w))
    f = m.fn("h_store%d_%s" % (w, e))
    st, _ = eng.call1(st, f, [dst, mk(bits)])
    cells = [mk(bits[8 * i:8 * i + 8]) for i in range(n)]
    res.append(compare("%s store%d_%s" % (config, w, e), read(eng, st, dst, n), cells if e == "le" else cells[::-1], eng, f))
    return res


def lens(c):
    return lengths_kept(MODS[c], c, ["/memory_utils/"], 1)


def main():
    ck = Check("C08", "other", "bit-exact value of every output byte and exact access extents", 300, ASSUME)
    quick = ck.tier == "quick"
    cfgs = ("portable", "simd", "sse2")
    for c in cfgs:
        MODS[c] = build_module(c, ["bytes.cpp"])
    jobs = []
    for config in MODS:
        ns = list(range(0, 140)) + [191, 192, 223, 255, 256, 257, 384, 511, 512, 513, 640, 767, 1023, 1024, 1535, 1536 + 511]
        if not quick:
            ns = list(range(0, 1100)) + [1535, 1536, 2047]
        for n in ns:
            for al in ("", "a", "b", "ab"):
                jobs.append((xor, (config, "h_xor_n", n, al, 1 if n % 3 == 1 else 0)))
                if n < 140:
                    jobs.append((xor, (config, "h_xor_fixed", n, al, 0)))
        for n in (255, 256, 257, 511, 512, 513, 640, 767, 1024, 1087, 1535, 1536, 2047):
            for al in ("", "a", "b", "ab"):
                jobs.append((xor, (config, "h_xor_big", n, al, 0)))
        for w in (8, 16, 32, 64):
            for e in ("le", "be"):
                jobs.append((mem, (config, w, e)))
    jobs += [(lens, (c,)) for c in MODS]
    ck.run(jobs)
    ck.finish()


main()
