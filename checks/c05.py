import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr, UNDEF, Finding
from vlib import anf, mock
from vlib.anf import AnfDomain, inp, tobits, Bits, mk, xor_b, ripple_add
from vlib.lens import lengths_kept
from vlib.util import *

MODS = {}
CFG = {"16_1": (16, 1), "16_4": (16, 4), "16_16": (16, 16), "8_2": (8, 2), "12_3": (12, 3)}
MODES = ["ecbe", "ecbd", "cbce", "cbcd", "cfbe", "cfbd", "ofbe", "ofbd", "ctre", "ctrd"]
LONG = {"ecb": "ECB", "cbc": "CBC", "cfb": "CFB", "ofb": "OFB", "ctr": "CTR"}


# --------------------------------------------------------------------------- SP 800-38A reference
def be_inc(ctr, n):
    bits = []
    for c in reversed(ctr):
        bits += tobits(c, 8)
    v, _ = ripple_add(len(bits), mk(bits), n)
    b = tobits(v, len(bits))
    return [mk(b[8 * i:8 * i + 8]) for i in range(len(ctr))][::-1]


def ref(mode, key, iv, data, bs):
    """expected output bytes, or None when the message length is not admissible"""
    m, enc = mode[:3], mode[3] == "e"
    E = lambda x: mock.cipher(key, bs, x, 1)
    D = lambda x: mock.cipher(key, bs, x, 0)
    X = lambda a, b: [xor_b(p, q) for p, q in zip(a, b)]
    if m in ("ecb", "cbc") and len(data) % bs:
        return None
    out = []
    chain = list(iv)
    k = 0
    for i in range(0, len(data), bs):
        b = data[i:i + bs]
        if m == "ecb":
            o = E(b) if enc else D(b)
        elif m == "cbc":
            if enc:
                o = E(X(b, chain))
                chain = o
            else:
                o = X(D(b), chain)
                chain = b
        elif m == "cfb":
            s = E(chain)
            o = X(b, s)
            chain = o if enc else b
        elif m == "ofb":
            chain = E(chain)
            o = X(b, chain)
        else:
            o = X(b, E(be_inc(iv, k)))
            k += 1
        out += o
    return out


class Obj:
    def __init__(self, config, mode, cfg):
        self.m = MODS[config]
        self.config, self.mode, self.cfg = config, mode, cfg
        self.bs, self.par = CFG[cfg]
        self.p = "h_%s_%s_" % (mode, cfg)
        self.eng = Engine(self.m, AnfDomain(ripple="all"))
        mock.install(self.eng)
        self.st = State()
        info = const_array(self.m, self.p + "info", 8)
        if info[1] != self.bs:
            raise AnalysisError("block size")
        self.c = Ptr(self.eng.new_obj(self.st, "mode", info[0]), 0)
        self.olp = Ptr(self.eng.new_obj(self.st, "outl", 8), 0)
        self.nkey = 0
        self.label = "%s %s-%s %s" % (config, LONG[mode[:3]], "encrypt" if mode[3] == "e" else "decrypt", cfg)

    def f(self, n):
        return self.m.fn(self.p + n)

    def call(self, n, *a):
        self.st, v = self.eng.call1(self.st, self.f(n), [self.c] + list(a))
        return v

    def start(self, how, tag):
        """(re)initialise; sets self.key, self.iv"""
        kp = mem_input(self.eng, self.st, "key" + tag, 16)
        ivp = mem_input(self.eng, self.st, "iv" + tag, self.bs)
        if how == "ctor":
            self.call("ctor", kp, ivp)
        elif how == "new":
            self.call("new")
            self.call("init", kp, ivp)
        elif how == "init":
            self.call("init", kp, ivp)
        elif how == "reset":
            self.call("reset", ivp)
            self.iv = inp("iv" + tag, self.bs)
            return
        self.key, self.iv = inp("key" + tag, 16), inp("iv" + tag, self.bs)

    def message(self, tag, parts, final, inplace):
        """feed the message in pieces; returns obligations"""
        eng, bs = self.eng, self.bs
        n = sum(parts)
        msg = inp(tag, n)
        want = ref(self.mode, self.key, self.iv, msg, bs)
        key = "%s %s message %s%s%s" % (self.label, tag, "+".join(map(str, parts)), " via final" if final else "",
                                         " in place" if inplace else "")
        fn = self.f("update")
        res = []
        got = []
        done = 0
        buf = mem_input(eng, self.st, tag, n) if inplace else None
        calls = list(parts) if not final else list(parts[:-1])
        emitted = 0

        def outl():
            cells = [eng.load_cell(self.st, eng.obj(self.st, self.olp.obj), i) for i in range(8)]
            v = eng.join_bytes(cells) if UNDEF not in cells else UNDEF
            return v

        def poison():
            o = eng.wobj(self.st, self.olp.obj)
            for i in range(8):
                o.cells.pop(i, None)
        for k, p in enumerate(calls):
            room = (done + p) // bs * bs - emitted
            if inplace:
                src = Ptr(buf.obj, done)
                dst = Ptr(buf.obj, emitted)
            else:
                src = mem_values(eng, self.st, "piece", msg[done:done + p])
                dst = Ptr(eng.new_obj(self.st, "out", room), 0)
            poison()
            self.call("update", dst, self.olp, src, p)
            v = outl()
            if v is UNDEF or type(v) is not int:
                return [Result(key + ": reported length", False, real_where(eng, fn), "update %d does not set the output length" % k)]
            if v > room:
                return [Result(key + ": reported length", False, real_where(eng, fn), "update %d reports %d bytes, %d available" % (k, v, room))]
            got += read(eng, self.st, dst, v)
            if not inplace:
                # nothing beyond the reported length is written; input untouched
                if any(o >= v for o in self.st.mem[dst.obj].cells):
                    return [Result(key, False, real_where(eng, fn), "update %d writes past the reported length" % k)]
                res_in = compare(key + ": input preserved", read(eng, self.st, src, p), msg[done:done + p], eng, fn)
                if not res_in.ok:
                    res.append(res_in)
            done += p
            emitted += v
        fn = self.f("final")
        p = parts[-1] if final else 0
        room = n - emitted
        if inplace:
            dst = Ptr(buf.obj, emitted)
            src = Ptr(buf.obj, done)
        else:
            dst = Ptr(eng.new_obj(self.st, "out", room), 0)
            src = mem_values(eng, self.st, "piece", msg[done:])
        poison()
        outs = eng.call(self.st, self.f("finaln") if final else fn, [self.c, dst, self.olp] + ([src, p] if final else []))
        if want is None:
            ok = bool(outs) and all(o[0] == "throw" for o in outs)
            self.st = outs[0][1]
            res.append(Result(key + ": incomplete block refused", ok, real_where(eng, fn),
                              "" if ok else "final accepts a message that is not a whole number of blocks", stats(eng)))
            return res
        if len(outs) != 1 or outs[0][0] != "ret":
            res.append(Result(key, False, real_where(eng, fn), "final fails on an admissible message", stats(eng)))
            return res
        self.st = outs[0][1]
        v = outl()
        if v != room:
            res.append(Result(key + ": reported length", False, real_where(eng, fn), "final reports %s bytes instead of %d" % (v, room), stats(eng)))
            return res
        got += read(eng, self.st, dst, v)
        res.append(compare(key, got, want, eng, fn))
        return res


def single(config, mode, cfg, parts, final, inplace, how):
    o = Obj(config, mode, cfg)
    o.start(how, "A")
    return o.message("m", parts, final, inplace)


def reuse(config, mode, cfg, first, how):
    """a second message on the same object never depends on the first"""
    o = Obj(config, mode, cfg)
    o.start("ctor", "A")
    res = o.message("m", first, False, False)
    o.start(how, "B")
    o.label += " reused by " + how
    bs = o.bs
    return res + o.message("n", (bs // 2, bs + bs // 2 + bs * o.par), False, False)


def midreuse(config, mode, cfg, first, how):
    """re-initialisation in the middle of a message"""
    o = Obj(config, mode, cfg)
    o.start("ctor", "A")
    src = mem_input(o.eng, o.st, "m", first)
    dst = Ptr(o.eng.new_obj(o.st, "out", first), 0)
    o.call("update", dst, o.olp, src, first)
    o.start(how, "B")
    o.label += " restarted by %s after %d bytes" % (how, first)
    bs = o.bs
    return o.message("n", (bs - 1, bs + 1 + bs * o.par), False, False)


def guarded(fn, *a):
    try:
        return fn(*a)
    except Finding as e:
        raise


def names(c):
    return named_modes(MODS[c], c, ("Ecb", "Cbc", "Cfb", "Ofb", "Ctr"))


def lens(c):
    return lengths_kept(MODS[c], c, ["/block_cipher_mode/", "/memory_utils/"], 1)


def main():
    ck = Check("C05", "other", "value-graph normal form of every mode over an uninterpreted cipher equals SP 800-38A; "
               "exact output extents; chunk-independence; state reset", 400, ASSUME)
    for c in ("portable", "simd"):
        MODS[c] = build_module(c, ["modes.cpp", "alias.cpp"])
    quick = ck.tier == "quick"
    jobs = []
    for config in MODS:
        for cfg, (bs, par) in CFG.items():
            if par <= 4:
                counts = list(range(0, 2 * par + 3))
            else:
                counts = [0, 1, 2, 5, 15, 16, 17, 31, 33] if quick else list(range(0, 50))
            for mode in MODES:
                for b in counts:
                    for t in (0, 1, bs - 1) if quick else range(bs):
                        if b > 20 and t == 1 and quick:
                            continue
                        jobs.append((single, (config, mode, cfg, (b * bs + t,), (b + t) % 2 == 1, False, "new" if b % 2 else "ctor")))
                for b in (1, par, par + 1, 2 * par + 1):
                    for t in (0, 3):
                        jobs.append((single, (config, mode, cfg, (b * bs + t,), False, True, "ctor")))
                if quick and cfg in ("16_1", "16_16") and config == "simd":
                    sp = [(1, bs - 1), (3, par * bs, 2)]
                else:
                    sp = [(1, bs - 1), (bs - 1, 1, par * bs), (3, 4), (3, 4, bs), (bs, bs), (bs + 1, bs - 1), (5, par * bs + bs, 1),
                          (0, bs, 0), (par * bs - 1, par * bs + 2), (2, bs - 3), (1, 1, 1), (bs - 2, 1, 1, 1, bs * par)]
                for k, s in enumerate(sp):
                    jobs.append((single, (config, mode, cfg, s, k % 3 == 1, False, "ctor")))
                    if k % 2 == 0:
                        jobs.append((single, (config, mode, cfg, s, k % 4 == 0, True, "ctor")))
                if cfg in ("16_4", "8_2") or not quick:
                    for how in ("init", "reset"):
                        jobs.append((reuse, (config, mode, cfg, (bs + 3,), how)))
                        jobs.append((reuse, (config, mode, cfg, (2 * bs,), how)))
                        jobs.append((midreuse, (config, mode, cfg, bs + 5, how)))
    jobs.sort(key=lambda j: -(sum(j[1][3]) if isinstance(j[1][3], tuple) else j[1][3]))
    jobs += [(lens, (c,)) for c in MODS] + [(names, (c,)) for c in MODS]
    ck.run(jobs)
    ck.finish()


main()
