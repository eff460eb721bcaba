import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr
from vlib import anf
from vlib.anf import AnfDomain, inp, tobits, xor_block, shift_rows, sub_b, mix_columns, inv_shift_rows, inv_sub_b, inv_mix_columns
from vlib.lens import lengths_kept
from vlib.util import *

MODS = {}


# ---- FIPS-197 reference over the bit domain
def key_expansion(key, nk):
    nr = nk + 6
    w = [key[4 * i:4 * i + 4] for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = w[i - 1]
        if i % nk == 0:
            t = t[1:] + t[:1]
            t = [sub_b(x) for x in t]
            t = [anf.xor_b(t[0], rc)] + t[1:]
            rc = anf.gf_mul(rc, 2)
        elif nk > 6 and i % nk == 4:
            t = [sub_b(x) for x in t]
        w.append([anf.xor_b(x, y) for x, y in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def cipher(rk, s):
    nr = len(rk) - 1
    s = xor_block(s, rk[0])
    for r in range(1, nr + 1):
        s = shift_rows([sub_b(x) for x in s])
        if r != nr:
            s = mix_columns(s)
        s = xor_block(s, rk[r])
    return s


def inv_cipher(rk, s):
    nr = len(rk) - 1
    s = xor_block(s, rk[nr])
    for r in range(nr - 1, -1, -1):
        s = [inv_sub_b(x) for x in inv_shift_rows(s)]
        s = xor_block(s, rk[r])
        if r:
            s = inv_mix_columns(s)
    return s


def setup(config, N, enc, how):
    m = MODS[config]
    eng = Engine(m, AnfDomain())
    st = State()
    info = const_array(m, "h_aes%d_info" % N, 8)
    dirs = const_array(m, "h_aes%d_dir" % N, 4)
    if info[1] != 16 or info[2] != N // 8:
        raise AnalysisError("AES%d declares block %d key %d" % (N, info[1], info[2]))
    ctx = Ptr(eng.new_obj(st, "cipher", info[0]), 0)
    key = mem_input(eng, st, "key", N // 8)
    if how == "set":
        st, _ = eng.call1(st, m.fn("h_aes%d_new" % N), [ctx])
        st, _ = eng.call1(st, m.fn("h_aes%d_setkey" % N), [ctx, key, dirs[0 if enc else 1]])
    else:
        st, _ = eng.call1(st, m.fn("h_aes%d_ctor" % N), [ctx, key, dirs[0 if enc else 1]])
    # the caller's key buffer is no longer available afterwards: the object must not depend on it
    st.mem = {k: v for k, v in st.mem.items() if k != key.obj}
    return m, eng, st, ctx, info


def blocks(config, N, enc, n, inplace, how):
    key = "%s AES%d %s %s%s via %s" % (config, N, "encrypt" if enc else "decrypt",
                                        "single block" if n is None else "%d blocks" % n,
                                        " in place" if inplace else "", how)
    m, eng, st, ctx, info = setup(config, N, enc, how)
    nb = 1 if n is None else n
    src = mem_input(eng, st, "in", 16 * nb)
    if inplace:
        dst = src
    else:
        dst = Ptr(eng.new_obj(st, "out", 16 * nb), 0)
    ref_in = [inp("in", 16 * nb)[16 * i:16 * i + 16] for i in range(nb)]
    before = snapshot(st, ctx)
    d = "e" if enc else "d"
    if n is None:
        f = m.fn("h_aes%d_%sb" % (N, d))
        st, _ = eng.call1(st, f, [ctx, dst, src])
    else:
        f = m.fn("h_aes%d_%sbs" % (N, d))
        st, _ = eng.call1(st, f, [ctx, dst, src, n])
    rk = key_expansion(inp("key", N // 8), N // 32)
    want = []
    for b in ref_in:
        want += (cipher if enc else inv_cipher)(rk, b)
    got = read(eng, st, dst, 16 * nb)
    res = [compare(key, got, want, eng, f)]
    if not inplace:
        res.append(compare(key + ": input preserved", read(eng, st, src, 16 * nb), sum(ref_in, []), eng, f))
    res.append(same(key + ": key schedule unchanged", before, snapshot(st, ctx), eng, f))
    return res


def lens(c):
    return lengths_kept(MODS[c], c, ["/aes/"], 1)


def main():
    ck = Check("C01", "other", "value-graph normal form of every AES path equals the FIPS-197 value graph", 40,
               ASSUME + ["AES-NI and shuffle intrinsics have their documented semantics"])
    for c in ("portable", "simd"):
        MODS[c] = build_module(c, ["aes.cpp"], srcs=src_of("aes/"))
    jobs = []
    ns = (0, 1, 2, 3, 4, 5, 6, 7, 9) if ck.tier == "quick" else (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17)
    for c in MODS:
        for N in (128, 192, 256):
            for enc in (1, 0):
                jobs.append((blocks, (c, N, enc, None, False, "set")))
                jobs.append((blocks, (c, N, enc, None, True, "ctor")))
                for n in ns:
                    jobs.append((blocks, (c, N, enc, n, n % 2 == 1, "set")))
                    if n == 3:
                        jobs.append((blocks, (c, N, enc, n, False, "set")))
    jobs += [(lens, (c,)) for c in MODS]
    ck.run(jobs)
    ck.finish()


main()
