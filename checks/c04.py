import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr, UNDEF
from vlib import anf
from vlib.anf import AnfDomain, inp, tobits, Bits, mk, atom_bit, POLYS, MONOS, band, bxor
from vlib.lens import lengths_kept
from vlib.util import *

MODS = {}


# ------------------------------------------------------------------ SP 800-38D reference
def blk(cells):
    """16 bytes -> 128 coefficient bits, x^0 first (leftmost bit of the first byte)"""
    r = []
    for c in cells:
        b = tobits(c, 8)
        r += [b[7 - j] for j in range(8)]
    return r


def unblk(bits):
    return [mk([bits[8 * i + 7 - j] for j in range(8)]) for i in range(16)]


def gmul(X, H):
    Z = [set() for _ in range(128)]
    V = list(H)
    for i in range(128):
        if X[i]:
            for j in range(128):
                if V[j]:
                    Z[j] ^= POLYS[band(X[i], V[j])]
        # V * x
        msb = V[127]
        V = [0] + V[:127]
        for k in (0, 1, 2, 7):
            V[k] = bxor(V[k], msb)
    return [anf.intern(frozenset(z)) for z in Z]


def ghash(H, data, Y=None):
    Y = Y or [0] * 128
    for i in range(0, len(data), 16):
        X = blk(data[i:i + 16])
        Y = gmul([bxor(a, b) for a, b in zip(Y, X)], H)
    return Y


KONST = [bytes.fromhex("66e94bd4ef8a2c3b884cfa59ca342b2e"), b"\xff" * 16, bytes([128] + [0] * 15), bytes([0] * 15 + [1]),
         bytes((37 * i + 11) & 255 for i in range(16)), bytes(16)]


# --------------------------------------------------------------- uniform access to an implementation
class Impl:
    def __init__(self, mod, name):
        self.m = MODS[mod]
        self.mod = mod
        self.name = name
        self.cls = name == "class"
        if self.cls:
            self.size = const_array(self.m, "h_ghash_info", 8)
            if self.size[1:] != [16, 16]:
                raise AnalysisError("GHASH block/digest size %s" % self.size)
            self.size = self.size[0]
        else:
            self.size = const_array(self.m, "h_%s_info" % name, 8)[0]

    def fresh(self):
        eng = Engine(self.m, AnfDomain())
        st = State()
        return eng, st, Ptr(eng.new_obj(st, "ctx", self.size), 0)

    def init(self, eng, st, c, h, re=False):
        n = ("h_ghash_setkey" if re else "h_ghash_newk") if self.cls else "h_%s_init" % self.name
        return eng.call1(st, self.m.fn(n), [c, h])[0]

    def reset(self, eng, st, c):
        return eng.call1(st, self.m.fn("h_ghash_reset" if self.cls else "h_%s_reset" % self.name), [c])[0]

    def blocks(self, eng, st, c, p, n):
        if self.cls:
            return eng.call1(st, self.m.fn("h_ghash_update"), [c, p, 16 * n])[0]
        return eng.call1(st, self.m.fn("h_%s_blocks" % self.name), [c, p, n])[0]

    def final(self, eng, st, c):
        out = Ptr(eng.new_obj(st, "digest", 16), 0)
        if self.cls:
            st, _ = eng.call1(st, self.m.fn("h_ghash_final"), [c, out])
        else:
            st, v = eng.call1(st, self.m.fn("h_%s_final" % self.name), [c, out, Ptr(None, 0), 0])
            if v != 0:
                return st, [UNDEF] * 16
        return st, read(eng, st, out, 16)

    def anchor(self):
        return self.m.fn("h_ghash_final" if self.cls else "h_%s_final" % self.name)


def label(i):
    return "%s %s" % (i.mod, i.name)


def step(mod, name):
    """arbitrary key, arbitrary running value, arbitrary block: exactly one field multiplication"""
    I = Impl(mod, name)
    key = label(I) + " GHASH"
    eng, st, c = I.fresh()
    h = mem_input(eng, st, "H", 16)
    H = blk(inp("H", 16))
    f = I.anchor()
    st = I.init(eng, st, c, h)
    after_init = snapshot(st, c)
    s0, d0 = I.final(eng, st, c)
    res = [compare(key + ": empty message has digest 0", d0, [0] * 16, eng, f)]
    # locate the running value: cells that depend on the data
    x = mem_input(eng, st, "X", 16)
    st = I.blocks(eng, st, c, x, 1)
    now = snapshot(st, c)

    def depends(v):
        return isinstance(v, Bits) and any(anf.ATOMS[a][1] == "X" for b in v.b for m in POLYS[b] for a in MONOS[m])
    cells = sorted(k for k in now if depends(now[k]))
    st1, d1 = I.final(eng, st, c)
    res.append(compare(key + ": first block", d1, unblk(gmul(blk(inp("X", 16)), H)), eng, f))
    if not res[-1].ok:
        return res
    if len(cells) != 16:
        raise AnalysisError("running value of GHASH occupies %d bytes" % len(cells))
    eng2, st, c = I.fresh()
    eng = eng2
    h = mem_input(eng, st, "H", 16)
    st = I.init(eng, st, c, h)
    st.mem[c.obj] = o = st.mem[c.obj].clone(st.uid)
    for k, v in zip(cells, inp("S", 16)):
        o.cells[k] = v
    stf, d = I.final(eng, st, c)
    D = blk(d)
    if len(set(D)) != 128 or any(len(POLYS[b]) != 1 or len(MONOS[next(iter(POLYS[b]))]) != 1 for b in D):
        raise AnalysisError("digest is not a permutation of the running value")
    before = {k: v for k, v in snapshot(st, c).items() if k not in cells}
    x = mem_input(eng, st, "X", 16)
    st = I.blocks(eng, st, c, x, 1)
    after = {k: v for k, v in snapshot(st, c).items() if k not in cells}
    stf, d = I.final(eng, st, c)
    want = unblk(gmul([bxor(a, b) for a, b in zip(D, blk(inp("X", 16)))], H))
    res.append(compare(key + ": one further block from any running value", d, want, eng, f))
    res.append(same(key + ": key material unchanged by data", before, after, eng, f))
    # digest computation leaves everything as it was
    st = I.reset(eng, st, c)
    stf, d = I.final(eng, st, c)
    res.append(compare(key + ": reset restarts from 0", d, [0] * 16, eng, f))
    x2 = mem_input(eng, st, "Y", 16)
    st = I.blocks(eng, st, c, x2, 1)
    stf, d = I.final(eng, st, c)
    res.append(compare(key + ": same key after reset", d, unblk(gmul(blk(inp("Y", 16)), H)), eng, f))
    h2 = mem_input(eng, st, "H2", 16)
    st = I.init(eng, st, c, h2, True)
    stf, d = I.final(eng, st, c)
    res.append(compare(key + ": re-keying restarts from 0", d, [0] * 16, eng, f))
    st = I.blocks(eng, st, c, x2, 1)
    stf, d = I.final(eng, st, c)
    res.append(compare(key + ": new key in effect", d, unblk(gmul(blk(inp("Y", 16)), blk(inp("H2", 16)))), eng, f))
    return res


def nblocks(mod, name, n, ki):
    I = Impl(mod, name)
    eng, st, c = I.fresh()
    h = mem_const(eng, st, "H", KONST[ki])
    st = I.init(eng, st, c, h)
    x = mem_input(eng, st, "X", 16 * n) if n else Ptr(eng.new_obj(st, "X", 0), 0)
    st = I.blocks(eng, st, c, x, n)
    st, d = I.final(eng, st, c)
    return compare("%s GHASH of %d blocks, key %d" % (label(I), n, ki), d,
                   unblk(ghash(blk(KONST[ki]), inp("X", 16 * n))), eng, I.anchor())


def split(mod, parts, ki):
    """public class: data supplied in pieces"""
    I = Impl(mod, "class")
    n = sum(parts)
    key = "%s GHASH fed in pieces of %s bytes" % (mod, "+".join(map(str, parts)))
    eng, st, c = I.fresh()
    h = mem_const(eng, st, "H", KONST[ki])
    st = I.init(eng, st, c, h)
    msg = inp("X", n)
    k = 0
    for p in parts:
        src = mem_values(eng, st, "piece", msg[k:k + p])
        st, _ = eng.call1(st, I.m.fn("h_ghash_update"), [c, src, p])
        k += p
    f = I.anchor()
    if n % 16:
        out = Ptr(eng.new_obj(st, "digest", 16), 0)
        outs = eng.call(st, f, [c, out])
        ok = all(o[0] == "throw" for o in outs)
        res = [Result(key + ": partial block refused", ok, real_where(eng, f), "digest of a partial block returned", stats(eng))]
        # after reset, or with a new key, the object is usable again
        before = st.fork()
        h2 = mem_input(eng, before, "H2", 16)
        y = mem_input(eng, before, "Y", 16)
        sk = I.init(eng, before, c, h2, True)
        sk, _ = eng.call1(sk, I.m.fn("h_ghash_update"), [c, y, 16])
        sk, d = I.final(eng, sk, c)
        res.append(compare(key + ": a new key discards the partial block", d, unblk(gmul(blk(inp("Y", 16)), blk(inp("H2", 16)))), eng, f))
        st = outs[0][1]
        st = I.reset(eng, st, c)
        st, d = I.final(eng, st, c)
        res.append(compare(key + ": reset discards the partial block", d, [0] * 16, eng, f))
        return res
    st, d = I.final(eng, st, c)
    return compare(key, d, unblk(ghash(blk(KONST[ki]), msg)), eng, f)


def lens(c):
    return lengths_kept(MODS[c], c, ["/ghash/", "/hash_lib/"], 1)


def main():
    ck = Check("C04", "other", "bilinear normal form of every GHASH back end equals SP 800-38D multiplication and chaining", 60, ASSUME)
    src = src_of("ghash/") + src_of("sm3/")
    MODS["portable"] = build_module("portable", ["ghash.cpp", "hash.cpp"], srcs=src)
    MODS["simd"] = build_module("simd", ["ghash.cpp", "hash.cpp"], srcs=src)
    quick = ck.tier == "quick"
    jobs = []
    impls = [("portable", "common"), ("portable", "lut256"), ("portable", "class"), ("simd", "class"), ("simd", "pclmul")]
    if not quick:
        impls += [("simd", "common"), ("simd", "lut256")]
    for m, n in impls:
        jobs.append((step, (m, n)))
    for m, n in impls:
        for k in range(0, 9 if quick else 33):
            jobs.append((nblocks, (m, n, k, k % 2)))
        for ki in range(2, len(KONST)):
            jobs.append((nblocks, (m, n, 3, ki)))
    for m in ("portable", "simd"):
        sp = [(a, b) for a in range(0, 34) for b in (0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 79)] if quick else \
            [(a, b) for a in range(0, 50) for b in range(0, 100)]
        sp = [s for s in sp if quick is False or sum(s) % 16 == 0 or s[0] % 5 == 1]
        sp += [(5, 3, 8), (1, 1, 14), (15, 2, 15, 32), (9, 71), (8, 8, 64), (3, 77), (16, 16, 16), (7, 9, 70, 10)]
        for k, s in enumerate(sp):
            jobs.append((split, (m, s, k % 2)))
    jobs += [(lens, (c,)) for c in MODS]
    ck.run(jobs)
    ck.finish()


main()
