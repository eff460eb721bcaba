import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr, UNDEF, Finding, Sel
from vlib import anf
from vlib.anf import AnfDomain, inp, tobits, mk, xor_b, atom_bit
from vlib.lens import lengths_kept
from vlib.util import *

MODS = {}
SIZES = [(64, 32), (128, 64), (16, 20), (20, 12), (8, 8)]
_ids = {}


def ident(t):
    return _ids.setdefault(t, len(_ids))


def bitsof(cells):
    return tuple(b for c in cells for b in tobits(c, 8))


def iv(bs, ds):
    return tuple(atom_bit(("iv", bs, ds, j)) for j in range(128))


def comp(s, block):
    k = ident(("f", s, bitsof(block)))
    return tuple(atom_bit(("f", k, j)) for j in range(128))


def last(s, tail, ds):
    k = ident(("l", s, len(tail), bitsof(tail)))
    b = tuple(atom_bit(("l", k, j)) for j in range(8 * ds))
    return [mk(b[8 * i:8 * i + 8]) for i in range(ds)]


def ref_hash(bs, ds, msg):
    s = iv(bs, ds)
    n = len(msg) // bs * bs
    for i in range(0, n, bs):
        s = comp(s, msg[i:i + bs])
    return last(s, msg[n:], ds)


def ref_hmac(bs, ds, key, msg):
    if len(key) > bs:
        key = ref_hash(bs, ds, key)
        # a digest longer than the block is cut to the block length
        key = key[:bs]
    key = list(key) + [0] * (bs - len(key))
    inner = ref_hash(bs, ds, [xor_b(k, 0x36) for k in key] + list(msg))
    return ref_hash(bs, ds, [xor_b(k, 0x5c) for k in key] + inner)


def install(eng):
    def reset(eng, st, f, a):
        s, bs, ds = a
        b = iv(bs, ds)
        eng.store_cells(st, s, [mk(b[8 * i:8 * i + 8]) for i in range(16)])

    def clean(cells, what):
        for x in cells:
            if x is UNDEF or isinstance(x, Sel):
                raise Finding("undef", "%s byte is uninitialised" % what, eng.where())
        return [eng.join_bytes([x]) for x in cells]

    def blocks(eng, st, f, a):
        s, inn, n, bs = a
        if type(n) is not int:
            raise Finding("blocks", "number of blocks is data dependent", eng.where())
        v = bitsof(clean(eng.load_bytes(st, s, 16), "chaining value"))
        if n:
            data = clean(eng.load_bytes(st, inn, n * bs), "hash input")
            for k in range(n):
                v = comp(v, data[k * bs:k * bs + bs])
        eng.store_cells(st, s, [mk(v[8 * i:8 * i + 8]) for i in range(16)])

    def fin(eng, st, f, a):
        s, d, inn, n, bs, ds = a
        if type(n) is not int or n >= bs:
            raise Finding("tail", "last block of %s bytes with a block size of %d" % (n, bs), eng.where())
        v = bitsof(clean(eng.load_bytes(st, s, 16), "chaining value"))
        data = clean(eng.load_bytes(st, inn, n), "hash input") if n else []
        eng.store_cells(st, d, last(v, data, ds))
    eng.hook(r"^mock_reset$", reset)
    eng.hook(r"^mock_blocks$", blocks)
    eng.hook(r"^mock_last$", fin)


def start(config, bs, ds):
    m = MODS[config]
    eng = Engine(m, AnfDomain())
    install(eng)
    info = const_array(m, "h_hm_%d_%d_info" % (bs, ds), 8)
    return m, eng, State(), info


def feed(m, eng, st, c, kind, bs, ds, tag, parts, how):
    """feeds a message; returns state, message, output"""
    p = "h_%s_%d_%d_" % (kind, bs, ds)
    msg = inp(tag, sum(parts))
    out = Ptr(eng.new_obj(st, "digest", ds), 0)
    done = 0
    ps = list(parts)
    lastp = ps.pop() if how == "finaln" else None
    for n in ps:
        src = mem_values(eng, st, "piece", msg[done:done + n]) if n else 0
        st, _ = eng.call1(st, m.fn(p + "update"), [c, src, n])
        done += n
    if lastp is None:
        st, _ = eng.call1(st, m.fn(p + "final"), [c, out])
    else:
        src = mem_values(eng, st, "piece", msg[done:])
        st, _ = eng.call1(st, m.fn(p + "finaln"), [c, out, src, lastp])
    return st, msg, out


def hashing(config, bs, ds, parts, how):
    m, eng, st, info = start(config, bs, ds)
    c = Ptr(eng.new_obj(st, "hash", info[0]), 0)
    st, _ = eng.call1(st, m.fn("h_hash_%d_%d_new" % (bs, ds)), [c])
    st, msg, out = feed(m, eng, st, c, "hash", bs, ds, "m", parts, how)
    key = "%s hash(block %d, digest %d) message %s %s" % (config, bs, ds, "+".join(map(str, parts)), how)
    return compare(key, read(eng, st, out, ds), ref_hash(bs, ds, msg), eng, m.fn("h_hash_%d_%d_final" % (bs, ds)))


def hmac(config, bs, ds, kl, parts, how, key_how):
    m, eng, st, info = start(config, bs, ds)
    if info[3] != ds:
        return Result("HMAC digest size", False, "", "declares %d for a hash of %d" % (info[3], ds))
    c = Ptr(eng.new_obj(st, "hmac", info[1]), 0)
    p = "h_hmac_%d_%d_" % (bs, ds)
    label = "%s HMAC(block %d, digest %d) key %d" % (config, bs, ds, kl)
    res = []
    if key_how == "ctor":
        kp = mem_input(eng, st, "key", kl)
        st, _ = eng.call1(st, m.fn(p + "newk"), [c, kp, kl])
    elif key_how == "set":
        st, _ = eng.call1(st, m.fn(p + "new"), [c])
        kp = mem_input(eng, st, "key", kl)
        st, _ = eng.call1(st, m.fn(p + "setkey"), [c, kp, kl])
    else:
        # object used before: finished message, or abandoned in the middle
        key_how, l0 = key_how
        l0 += bs
        k0 = mem_input(eng, st, "key0", l0)
        st, _ = eng.call1(st, m.fn(p + "newk"), [c, k0, l0])
        if key_how == "finished":
            st, _, _ = feed(m, eng, st, c, "hmac", bs, ds, "old", (bs + 1,), "final")
        else:
            src = mem_input(eng, st, "old", 5)
            st, _ = eng.call1(st, m.fn(p + "update"), [c, src, 5])
        label += " after a %s message under key %d" % (key_how, l0)
        kp = mem_input(eng, st, "key", kl)
        st, _ = eng.call1(st, m.fn(p + "setkey"), [c, kp, kl])
    # the caller's key buffer is gone after the call
    st.mem[kp.obj] = o = st.mem[kp.obj].clone(st.uid)
    for i in range(kl):
        o.cells[i] = 0xEE
    st, msg, out = feed(m, eng, st, c, "hmac", bs, ds, "m", parts, how)
    res.append(compare("%s message %s %s" % (label, "+".join(map(str, parts)), how), read(eng, st, out, ds),
                       ref_hmac(bs, ds, inp("key", kl), msg), eng, m.fn(p + "final")))
    return res


def lens(c):
    return lengths_kept(MODS[c], c, ["/hash_lib/"], 1)


def main():
    ck = Check("C07", "other", "digest term over an uninterpreted compression function equals the RFC 2104 term; hash buffering equals block-wise absorption", 300, ASSUME)
    quick = ck.tier == "quick"
    for c in ("portable", "simd"):
        MODS[c] = build_module(c, ["hmac.cpp"])
    jobs = []
    for config in MODS:
        for bs, ds in SIZES:
            for kl in sorted({0, 1, ds - 1, ds, ds + 1, bs - 1, bs, bs + 1, bs + 2, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs + 5} | (set() if quick else set(range(2 * bs + 3)))):
                for parts, how in (((5,), "final"), ((bs, 0, 3), "finaln")):
                    jobs.append((hmac, (config, bs, ds, kl, parts, how, "set" if kl % 2 else "ctor")))
            for kl in (3, bs, bs + 1):
                for h in ("finished", "abandoned"):
                    for l0 in (3, 0, -1):
                        jobs.append((hmac, (config, bs, ds, kl, (7,), "final", (h, l0))))
            ns = sorted({0, 1, 2, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs, 3 * bs + 2} | (set() if quick else set(range(3 * bs))))
            for n in ns:
                jobs.append((hmac, (config, bs, ds, 9, (n,), "final", "ctor")))
                for how in ("final", "finaln"):
                    jobs.append((hashing, (config, bs, ds, (n,), how)))
            cuts = [0, 1, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 3]
            for a in cuts:
                for b in cuts:
                    jobs.append((hashing, (config, bs, ds, (a, b), "final")))
                    jobs.append((hashing, (config, bs, ds, (a, b, bs // 2), "finaln")))
            for s in [(1,) * (bs + 2), (3, bs - 3, 1), (3, bs - 4, 1, bs), (bs - 1, 2 * bs + 1, 5), (2, 2 * bs + 7, bs - 9 % bs, 1)]:
                jobs.append((hashing, (config, bs, ds, s, "final")))
                jobs.append((hmac, (config, bs, ds, 9, s, "final", "set")))
    jobs += [(lens, (c,)) for c in MODS]
    ck.run(jobs)
    ck.finish()


main()
