import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr
from vlib import anf
from vlib.anf import AnfDomain, inp, tobits, bxor, mk, table_lookup
from vlib.util import *
from vlib.lens import lengths_kept
from vlib.gbt import SM4_SBOX

MODS = {}
FK = [0xA3B1BAC6, 0x56AA3350, 0x677D9197, 0xB27022DC]
CK = [sum((((4 * i + j) * 7) % 256) << (8 * (3 - j)) for j in range(4)) for i in range(32)]


# ---- GB/T 32907 reference; words are 32-bit values (big-endian bytes)
def word(b):
    out = ()
    for x in reversed(b):
        out += anf.tobits(x, 8)
    return out


def unword(w):
    return [mk(w[8 * (3 - i):8 * (3 - i) + 8]) for i in range(4)]


def wx(*ws):
    r = ws[0]
    for w in ws[1:]:
        r = tuple(bxor(a, b) for a, b in zip(r, w))
    return r


def rotl(w, n):
    return w[32 - n:] + w[:32 - n]


def const(v):
    return tuple((v >> i) & 1 for i in range(32))


def tau(w):
    out = ()
    for i in range(4):
        out += anf.tobits(table_lookup(SM4_SBOX, 8, mk(w[8 * i:8 * i + 8])), 8)
    return out


def T(w):
    b = tau(w)
    return wx(b, rotl(b, 2), rotl(b, 10), rotl(b, 18), rotl(b, 24))


def Tk(w):
    b = tau(w)
    return wx(b, rotl(b, 13), rotl(b, 23))


def schedule(key):
    K = [wx(word(key[4 * i:4 * i + 4]), const(FK[i])) for i in range(4)]
    rk = []
    for i in range(32):
        K.append(wx(K[i], Tk(wx(K[i + 1], K[i + 2], K[i + 3], const(CK[i])))))
        rk.append(K[-1])
    return rk


def crypt(rk, blk):
    X = [word(blk[4 * i:4 * i + 4]) for i in range(4)]
    for i in range(32):
        X.append(wx(X[i], T(wx(X[i + 1], X[i + 2], X[i + 3], rk[i]))))
    out = []
    for i in range(4):
        out += unword(X[35 - i])
    return out


def setup(config, enc, how):
    m = MODS[config]
    eng = Engine(m, AnfDomain())
    st = State()
    info = const_array(m, "h_sm4_info", 8)
    dirs = const_array(m, "h_sm4_dir", 4)
    if info[1] != 16 or info[2] != 16:
        raise AnalysisError("SM4 declares block %d key %d" % (info[1], info[2]))
    ctx = Ptr(eng.new_obj(st, "cipher", info[0]), 0)
    key = mem_input(eng, st, "key", 16)
    if how == "set":
        st, _ = eng.call1(st, m.fn("h_sm4_new"), [ctx])
        st, _ = eng.call1(st, m.fn("h_sm4_setkey"), [ctx, key, dirs[0 if enc else 1]])
    else:
        st, _ = eng.call1(st, m.fn("h_sm4_ctor"), [ctx, key, dirs[0 if enc else 1]])
    st.mem = {k: v for k, v in st.mem.items() if k != key.obj}
    return m, eng, st, ctx, info


def blocks(config, enc, n, inplace, how):
    key = "%s SM4 %s %s%s via %s" % (config, "encrypt" if enc else "decrypt",
                                      "single block" if n is None else "%d blocks" % n, " in place" if inplace else "", how)
    m, eng, st, ctx, info = setup(config, enc, how)
    nb = 1 if n is None else n
    src = mem_input(eng, st, "in", 16 * nb)
    dst = src if inplace else Ptr(eng.new_obj(st, "out", 16 * nb), 0)
    ref_in = [inp("in", 16 * nb)[16 * i:16 * i + 16] for i in range(nb)]
    before = snapshot(st, ctx)
    f = m.fn("h_sm4_%sb%s" % ("e" if enc else "d", "" if n is None else "s"))
    st, _ = eng.call1(st, f, [ctx, dst, src] + ([] if n is None else [n]))
    rk = schedule(inp("key", 16))
    if not enc:
        rk = rk[::-1]
    want = []
    for b in ref_in:
        want += crypt(rk, b)
    res = [compare(key, read(eng, st, dst, 16 * nb), want, eng, f)]
    if not inplace:
        res.append(compare(key + ": input preserved", read(eng, st, src, 16 * nb), sum(ref_in, []), eng, f))
    res.append(same(key + ": key schedule unchanged", before, snapshot(st, ctx), eng, f))
    return res


def lens(c):
    return lengths_kept(MODS[c], c, ["/sm4/"], 1)


def main():
    ck = Check("C02", "other", "value-graph normal form of every SM4 path equals the GB/T 32907 value graph", 40,
               ASSUME + ["vector shuffle/gather intrinsics have their documented semantics"])
    src = src_of("sm4/")
    MODS["portable"] = build_module("portable", ["sm4.cpp"], srcs=src)
    MODS["simd"] = build_module("simd", ["sm4.cpp"], srcs=src)
    MODS["plain"] = build_module("portable", ["sm4.cpp"], srcs=src, defs=[])
    jobs = []
    for c, m in MODS.items():
        P = const_array(m, "h_sm4_info", 8)[3]
        ck.note("%s dispatch: %d parallel lanes." % (c, P))
        ns = sorted(set(range(0, P + P // 2 + 1)) | {5, 9, 2 * P + 1, P + P // 2 + P // 4 + 1, 2 * P + P // 2 + P // 4 + 1} |
                    (set(range(0, 2 * P + 2)) if ck.tier != "quick" else set()))
        for enc in (1, 0):
            jobs.append((blocks, (c, enc, None, False, "set")))
            jobs.append((blocks, (c, enc, None, True, "ctor")))
            for n in ns:
                jobs.append((blocks, (c, enc, n, (n + enc) % 2 == 1, "set")))
                if n in (P, P + P // 2 + P // 4 + 1):
                    jobs.append((blocks, (c, enc, n, (n + enc) % 2 == 0, "set")))
    jobs.sort(key=lambda j: -(j[1][2] or 0))
    jobs += [(lens, (c,)) for c in MODS]
    ck.run(jobs)
    ck.finish()


main()
