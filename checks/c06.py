import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr, UNDEF, Finding
from vlib import anf, mock
from vlib.anf import AnfDomain, inp, tobits, Bits, mk, xor_b, bxor, lin_add, intern, POLYS
from vlib.lens import lengths_kept
from vlib.util import *

MODS = {}
# the hash key E(K, 0): sparse elements keep the normal forms small (every message length), a dense one for short
# messages; that the multiplication is right for every key is C04
HS = [bytes([0x04]) + bytes(15), bytes([0, 0x20]) + bytes(14), bytes.fromhex("66e94bd4ef8a2c3b884cfa59ca342b2e")]


# ------------------------------------------------------------------ SP 800-38D reference, H constant
def blk(cells):
    r = []
    for c in cells:
        b = tobits(c, 8)
        r += [b[7 - j] for j in range(8)]
    return r


def unblk(bits):
    return [mk([bits[8 * i + 7 - j] for j in range(8)]) for i in range(16)]


_mul = {}


def mulmat(H):
    if H not in _mul:
        V = [b for c in H for b in [(c >> (7 - j)) & 1 for j in range(8)]]
        rows = []
        for _ in range(128):
            rows.append(list(V))
            m = V[127]
            V = [0] + V[:127]
            for k in (0, 1, 2, 7):
                V[k] ^= m
        _mul[H] = [[i for i in range(128) if rows[i][j]] for j in range(128)]
    return _mul[H]


def ghash(H, data):
    assert len(data) % 16 == 0
    M = mulmat(H)
    Y = [0] * 128
    for i in range(0, len(data), 16):
        X = [bxor(a, b) for a, b in zip(Y, blk(data[i:i + 16]))]
        Y = [anf.xor_many([X[i] for i in M[j]]) for j in range(128)]
    return unblk(Y)


def padz(x):
    return list(x) + [0] * (-len(x) % 16)


def inc32(c, n):
    w = []
    for x in reversed(c[12:]):
        w += tobits(x, 8)
    v = lin_add(32, mk(w), n)
    b = tobits(v, 32)
    return list(c[:12]) + [mk(b[8 * i:8 * i + 8]) for i in range(4)][::-1]


def ref(H, key, iv, aad, data, enc):
    E = lambda x: mock.cipher(key, 16, x, 1, H)
    if len(iv) == 12:
        J0 = list(iv) + [0, 0, 0, 1]
    else:
        J0 = ghash(H, padz(iv) + [0] * 8 + list((8 * len(iv)).to_bytes(8, "big")))
    out = []
    for k, i in enumerate(range(0, len(data), 16)):
        s = E(inc32(J0, k + 1))
        out += [xor_b(a, b) for a, b in zip(data[i:i + 16], s)]
    ct = out if enc else list(data)
    S = ghash(H, padz(aad) + padz(ct) + list((8 * len(aad)).to_bytes(8, "big")) + list((8 * len(ct)).to_bytes(8, "big")))
    tag = [xor_b(a, b) for a, b in zip(S, E(J0))]
    return out, tag


class Gcm:
    def __init__(self, config, enc, par, hi):
        self.m = MODS[config]
        self.enc, self.par = enc, par
        self.H = HS[hi]
        self.p = "h_gcm%s_%d_" % ("e" if enc else "d", par)
        self.eng = Engine(self.m, AnfDomain())
        mock.install(self.eng, self.H)
        self.st = State()
        info = const_array(self.m, self.p + "info", 8)
        self.c = Ptr(self.eng.new_obj(self.st, "gcm", info[0]), 0)
        self.olp = Ptr(self.eng.new_obj(self.st, "outl", 8), 0)
        self.label = "%s GCM-%s lanes=%d" % (config, "encrypt" if enc else "decrypt", par)

    def f(self, n):
        return self.m.fn(self.p + n)

    def call(self, n, *a):
        self.st, v = self.eng.call1(self.st, self.f(n), [self.c] + list(a))
        return v

    def start(self, how, tag, ivl, aadl):
        e = self.eng
        kp = mem_input(e, self.st, "key" + tag, 16)
        ip = mem_input(e, self.st, "iv" + tag, ivl)
        ap = mem_input(e, self.st, "aad" + tag, aadl)
        if how == "new":
            self.call("new")
            how = "init"
        self.call(how, kp, ip, ivl, ap, aadl)
        self.key, self.iv, self.aad = inp("key" + tag, 16), inp("iv" + tag, ivl), inp("aad" + tag, aadl)

    def outl(self):
        cells = [self.eng.load_cell(self.st, self.eng.obj(self.st, self.olp.obj), i) for i in range(8)]
        return UNDEF if UNDEF in cells else self.eng.join_bytes(cells)

    def poison(self):
        o = self.eng.wobj(self.st, self.olp.obj)
        for i in range(8):
            o.cells.pop(i, None)

    def message(self, tag, parts, final, inplace):
        eng = self.eng
        n = sum(parts)
        msg = inp(tag, n)
        want, wtag = ref(self.H, self.key, self.iv, self.aad, msg, self.enc)
        key = "%s iv=%d aad=%d message %s%s%s" % (self.label, len(self.iv), len(self.aad), "+".join(map(str, parts)),
                                                " via final" if final else "", " in place" if inplace else "")
        res, got, done, emitted = [], [], 0, 0
        buf = mem_input(eng, self.st, tag, n) if inplace else None
        fn = self.f("update")
        if not self.enc:
            tp = mem_input(eng, self.st, "tag" + tag, 16)
            self.call("settag", tp)
            rtag = inp("tag" + tag, 16)
        for k, p in enumerate(list(parts[:-1]) if final else list(parts)):
            room = (done + p) // 16 * 16 - emitted
            if inplace:
                src, dst = Ptr(buf.obj, done), Ptr(buf.obj, emitted)
            else:
                src = mem_values(eng, self.st, "piece", msg[done:done + p])
                dst = Ptr(eng.new_obj(self.st, "out", room), 0)
            self.poison()
            self.call("update", dst, self.olp, src, p)
            v = self.outl()
            if type(v) is not int or v > room:
                return [Result(key + ": reported length", False, real_where(eng, fn), "update %d reports %s, %d available" % (k, v, room))]
            got += read(eng, self.st, dst, v)
            done += p
            emitted += v
        p = parts[-1] if final else 0
        room = n - emitted
        if inplace:
            src, dst = Ptr(buf.obj, done), Ptr(buf.obj, emitted)
        else:
            dst = Ptr(eng.new_obj(self.st, "out", room), 0)
            src = mem_values(eng, self.st, "piece", msg[done:])
        self.poison()
        fn = self.f("finaln" if final else "final")
        outs = eng.call(self.st, fn, [self.c, dst, self.olp] + ([src, p] if final else []))
        rets = [o for o in outs if o[0] == "ret"]
        thr = [o for o in outs if o[0] == "throw"]
        if self.enc:
            if thr or not rets:
                return res + [Result(key, False, real_where(eng, fn), "encryption fails", stats(eng))]
            self.st = rets[0][1]
        else:
            diffs = [bxor(a, b) for x, y in zip(rtag, wtag) for a, b in zip(tobits(x, 8), tobits(y, 8))]
            if not rets or not thr:
                return res + [Result(key + ": tag verification", False, real_where(eng, fn),
                                     "tag is never %s" % ("accepted" if not rets else "rejected"), stats(eng))]
            atom = anf.conj([anf.bnot(d) for d in diffs])
            okr = all(anf.conj([k if pol else anf.bnot(k) for k, pol in t]) == atom for t in rets[0][1].paths)
            okt = all(anf.conj([k if pol else anf.bnot(k) for k, pol in t]) == anf.bnot(atom) for t in thr[0][1].paths)
            res.append(Result(key + ": accepted iff all 128 tag bits match", okr and okt, real_where(eng, fn),
                              "acceptance is not decided by equality of the 16 tag bytes with the computed tag", stats(eng)))
            if not (okr and okt):
                return res
            # plaintext bytes on the accepting outcome
            self.st = anf.settle(eng, rets[0][1])
        v = self.outl()
        if v != room:
            return res + [Result(key + ": reported length", False, real_where(eng, fn), "final reports %s instead of %d" % (v, room), stats(eng))]
        got += read(eng, self.st, dst, v)
        res.append(compare(key, got, want, eng, fn))
        if self.enc:
            t = Ptr(eng.new_obj(self.st, "tag", 16), 0)
            self.call("gettag", t)
            res.append(compare(key + ": tag", read(eng, self.st, t, 16), wtag, eng, fn))
        return res


def single(config, enc, par, hi, ivl, aadl, parts, final, inplace, how):
    g = Gcm(config, enc, par, hi)
    g.start(how, "A", ivl, aadl)
    return g.message("m", parts, final, inplace)


def reuse(config, enc, par, first, second):
    """a second message on the same object, and on a second object, never depends on the first"""
    g = Gcm(config, enc, par, 0)
    g.start("ctor", "A", 12, 5)
    res = g.message("m", first, False, False)
    c = g.c
    g.start("init", "B", 12, 17)
    g.label += " reused after %s bytes" % (first,)
    res += g.message("n", second, False, False)
    g.c = Ptr(g.eng.new_obj(g.st, "gcm2", g.eng.obj(g.st, c.obj).size), 0)
    g.start("ctor", "C", 20, 0)
    g.label += " then fresh object"
    res += g.message("o", second, True, False)
    return res


def midreuse(config, enc, par, first):
    g = Gcm(config, enc, par, 0)
    g.start("ctor", "A", 12, 5)
    src = mem_input(g.eng, g.st, "m", first)
    dst = Ptr(g.eng.new_obj(g.st, "out", first), 0)
    g.call("update", dst, g.olp, src, first)
    g.start("init", "B", 9, 3)
    g.label += " re-initialised after %d bytes" % first
    return g.message("n", (20, 13), False, False)


def job(fn, *a):
    try:
        return fn(*a)
    except AnalysisError as e:
        if "polynomial blow-up" in str(e):
            raise Finding("nonlinear", "hash input depends non-linearly on the data: %s" % e)
        raise


def names(c):
    return named_modes(MODS[c], c, ("Gcm",))


def lens(c):
    return lengths_kept(MODS[c], c, ["/block_cipher_mode/gcm", "/block_cipher_mode/internal", "/ghash/", "/hash_lib/"], 1)


def main():
    ck = Check("C06", "other", "value-graph normal form of GCM (J0, counter blocks, GHASH framing, tag, acceptance condition) "
               "over an uninterpreted cipher equals SP 800-38D", 150, ASSUME + ["GHASH multiplication for every hash key: C04"])
    for c in ("portable", "simd"):
        MODS[c] = build_module(c, ["modes.cpp", "alias.cpp"])
    quick = ck.tier == "quick"
    jobs = []
    for config in MODS:
        for enc in (True, False):
            for par in (1, 4, 16):
                ns = [0, 1, 15, 16, 17, 32, 33, 48] + [16 * par - 1, 16 * par, 16 * par + 1, 32 * par, 32 * par + 21]
                if not quick:
                    ns += list(range(0, 70)) + [48 * par + 5]
                for k, n in enumerate(sorted(set(ns))):
                    jobs.append((job, (single, config, enc, par, k % 2, 12, (0, 3, 16, 20)[k % 4], (n,), k % 3 == 1, k % 5 == 2, "new" if k % 4 == 3 else "ctor")))
                sp = [(1, 15), (15, 1, 16 * par), (3, 4), (7, 9, 16), (16, 16), (17, 15), (5, 16 * par + 16, 1), (0, 16, 0), (16 * par - 1, 16 * par + 2)]
                for k, s in enumerate(sp):
                    jobs.append((job, (single, config, enc, par, 0, 12, 13, s, k % 3 == 1, k % 4 == 2, "ctor")))
                jobs.append((job, (reuse, config, enc, par, (16, 3), (19, 2))))
                jobs.append((job, (reuse, config, enc, par, (5,), (7,))))
                jobs.append((job, (midreuse, config, enc, par, 21)))
            for ivl in (1, 8, 11, 13, 15, 16, 17, 32, 60):
                jobs.append((job, (single, config, enc, 4, 0, ivl, 7, (36,), False, False, "ctor")))
            for aadl in (0, 1, 15, 16, 17, 31, 32, 33, 64, 90):
                jobs.append((job, (single, config, enc, 4, 1, 12, aadl, (21,), False, False, "ctor")))
                jobs.append((job, (single, config, enc, 4, 1, 12, aadl, (0,), False, False, "ctor")))
            for n in (0, 5, 16, 21, 37):
                jobs.append((job, (single, config, enc, 4, 2, 12, 9, (n,), False, False, "ctor")))
    jobs += [(lens, (c,)) for c in MODS] + [(names, (c,)) for c in MODS]
    ck.run(jobs)
    ck.finish()


main()
