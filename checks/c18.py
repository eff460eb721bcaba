#!/usr/bin/env python3
"""C18: decoders stay inside the supplied bytes, whatever they are."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.lin import L, P, U, explore, lin
from vlib import asn1spec as A
import _proto

MAXLEN = (1 << 60)
_m = {}


def module():
    if "m" not in _m:
        _m["m"] = build_module("portable", ["sm.cpp", "asn1.cpp"])
    return _m["m"]


def report(key, out, st, f):
    if not out:
        return Result(key, True, "", "", st)
    return Result(key, False, out[0][0] or f.dem, " | ".join(x[1] for x in out[:4]), st)


def compare(w, f, ret, want, got):
    """want: None or list of (what, expected); got: list of values"""
    where = "%s (%s)" % (w.m.loc([0, 0]) if False else f.dem.split("(")[0], f.file or "")
    r = w.norm(ret)
    if want is None:
        if not w.proves(r - 1):
            return [(where, "malformed input is not reported, when %s" % w.path())]
        return None
    if not w.equal(r, L(0)):
        return [(where, "well-formed input is reported as an error, when %s" % w.path())]
    for (what, e), g in zip(want, got):
        if g is U:
            return [(where, "%s is not set, when %s" % (what, w.path()))]
        if type(e) is P:
            if type(g) is not P or g.r != e.r or not w.equal(g.o, e.o):
                return [(where, "%s is %r instead of %r, when %s" % (what, g, e, w.path()))]
        elif type(g) is P or not w.equal(g, e):
            return [(where, "%s is %r instead of %r, when %s" % (what, g, e, w.path()))]
    return None


def inp(w):
    n = w.sym("inl", 0, MAXLEN)
    return w.region("in", n, "in"), n


def job_tlv():
    f = module().fn("asn1::asn1_decode_tlv")

    def job(w):
        p, n = inp(w)
        t, rn = w.local(32, "tlv"), w.local(8, "read_num")
        ret = w.run(f, [t, rn, p, n])
        s = A.tlv_bytes(w, "in", L(0), w.norm(n))
        if s is None:
            return compare(w, f, ret, None, [])
        return compare(w, f, ret, [("the class", s["cls"]), ("primitive/constructed", s["pc"]), ("the tag number", s["num"]), ("the length", s["len"]),
                                   ("the value pointer", P("in", s["hdr"])), ("the number of bytes read", s["hdr"] + s["len"])],
                       [w.load(P(t.r, 0), 4), w.load(P(t.r, 4), 4), w.load(P(t.r, 8), 4), w.load(P(t.r, 16), 8), w.load(P(t.r, 24), 8), w.load(rn, 8)])
    return report("asn1_decode_tlv", *explore(module(), job), f)


def job_prim(kind):
    f = module().fn("asn1::asn1_decode_%s_value" % kind)
    outs = A.PRIM[kind][1]

    def job(w):
        p, n = inp(w)
        ps = [w.local(A.SIZE[k], k) for k in outs]
        rn = w.local(8, "read_num")
        ret = w.run(f, ps + [rn, p, n])
        e = A.element(w, kind, "in", L(0), w.norm(n), A.tlv_bytes)
        if e is None:
            return compare(w, f, ret, None, [])
        return compare(w, f, ret, [("field " + k, P("in", e[k]) if k == "ptr" else e[k]) for k in outs] + [("the number of bytes read", e["read"])],
                       [w.load(q, A.SIZE[k]) for q, k in zip(ps, outs)] + [w.load(rn, 8)])
    return report("asn1_decode_%s_value" % kind, *explore(module(), job), f)


def summaries(w):
    w.hook(r"^asn1::asn1_decode_tlv\(", A.hook_tlv)
    for k in A.PRIM:
        w.hook(r"^asn1::asn1_decode_%s_value\(" % k, A.hook_element(k))


def job_sm2(name):
    f = module().fn("sm2::internal::sm2_%s_asn1_decode" % name)
    nf = {"private_key": 1, "public_key": 1, "signature": 2, "cipher": 6}[name]

    def job(w):
        summaries(w)
        p, n = inp(w)
        o, rn = w.local(8 * nf, name), w.local(8, "read_num")
        ret = w.run(f, [o, rn, p, n])
        s = A.structure(w, name, "in", w.norm(n), A.tlv_abstract)
        if s is None:
            return compare(w, f, ret, None, [])
        return compare(w, f, ret, [("field %d" % k, P("in", v) if t == "ptr" else v) for k, (t, v) in enumerate(s[0])] + [("the number of bytes read", s[1])],
                       [w.load(P(o.r, 8 * k), 8) for k in range(nf)] + [w.load(rn, 8)])
    return report("sm2_%s_asn1_decode" % name, *explore(module(), job), f)


def job_dump():
    """asn1_dump: every access inside the input, nested errors reported, bounded recursion"""
    f = module().fn("asn1::asn1_dump")
    rec = {}
    res = []

    def call(root):
        def h(w, g, ra, args):
            # the recursive call: same contract as the function itself
            ptr = next(k for k, a in enumerate(args) if type(a) is P)
            ln = next(k for k in range(ptr + 1, len(args)) if type(args[k]) is L)
            w.access(args[ptr], args[ln], "recursion on")
            rec[g.name] = (g, ptr, ln, len(args))
            if root:
                ok = False
                for k, (a, b) in enumerate(zip(ra, args)):
                    if type(a) is L and type(b) is L and k != ln:
                        if w.proves(b - a - 1) and w.proves(L(4096) - a) or w.proves(a - b - 1) and w.proves(L(4096) - a):
                            ok = True
                if not ok:
                    from vlib.engine import Finding
                    raise Finding("recursion", "the depth of the recursion is not bounded by a constant", w.where())
            return A.fail(w, g, not w.flag(("nested", w.where())))
        return h

    def outcome(w, f, ret):
        if w.memo.get("failed"):
            if not w.proves(w.norm(ret) - 1):
                return [(f.dem, "error of %s is not returned, when %s" % (w.memo["failed"][-1], w.path()))]
        return None

    def names(w):
        w.hook(r"^asn1::asn1_decode_tlv\(", A.hook_tlv)
        w.hook(r"^asn1::asn1_tag_\w+_name\(", lambda w, g, a: P(w.local(32, "name").r, 0))

    def job(w):
        names(w)
        w.memo["recursion"] = call(False)
        p, n = inp(w)
        return outcome(w, f, w.run(f, [p, n]))
    out, st = explore(module(), job, unroll=14)
    res.append(report("asn1_dump", out, st, f))
    for g, ptr, ln, na in list(rec.values()):
        def job2(w):
            names(w)
            w.memo["recursion"] = call(True)
            p, n = inp(w)
            args = []
            for k in range(na):
                t = w.m.types[g.args[k]["t"]]
                args.append(p if k == ptr else n if k == ln else w.sym("arg%d" % k, 0, (1 << t.w) - 1))
            return outcome(w, g, w.run(g, args))
        out, st = explore(module(), job2, unroll=14)
        res.append(report("asn1_dump/recursion", out, st, g))
    return res


def object_jobs(deep):
    """points, ciphertexts and signatures handed to the objects: every input length around and below what the format needs"""
    r = []
    known = (2, 3, 4, 6, 7)
    other = [t for t in range(256) if t not in known]
    for g in "29T":
        top = 138 if g == "T" else 74
        for t in known:
            r.append((("valid", "decode"), g, [t], list(range(top))))
        ts = other if deep else [0, 1, 5, 8, 9, 16, 127, 128, 130, 132, 255]
        for i in range(0, len(ts), 16):
            r.append((("valid", "decode"), g, ts[i:i + 16], (0, 1, 2, 33, 65, 129) if not deep else list(range(0, top, 3))))
    for n in "ab":
        r.append((("valid", "plaintext_len"), n))
        for t in known + (0, 1, 5, 8, 255):
            for lo in range(0, 100, 25):
                r.append((("sm2spec", "short_cipher"), n, [t], list(range(lo, lo + 25))))
        for t in known:
            for pl in (0, 1, 31, 33) + ((64, 65) if deep else ()):
                r.append((("sm2spec", "decrypt"), n, t, pl, "C18"))
            ln = 32 + (33 if t < 4 else 65)
            for extra in (list(range(-ln, 9)) if deep else list(range(-ln, 9, 6)) + [-ln + 1, -ln + 31, -ln + 32, -ln + 33, -ln + 64, -2, -1, 0, 1, 8]):
                r.append((("sm9spec", "verify"), n, t, extra, 16, 1, "C18"))
                if deep or extra % 4 == 0:
                    r.append((("sm9spec", "verify"), n, t, extra, 16, 1, "C18", True))
    return r


def main():
    c = Check("C18", "other",
              "every access made by a decoder is proved inside the supplied bytes, on every path, for inputs of any length and content (linear inequalities over unknown lengths); "
              "outcome and results equal the parser definition; loops of unknown length carry inferred invariants and a ranking variable; recursion is bounded",
              min_obligations=14,
              assumptions=["clang 18 IR of the current sources is the analysed program", "no object is larger than 2^60 bytes"])
    jobs = [(job_tlv, ()), (job_dump, ())] + [(job_prim, (k,)) for k in A.PRIM] + [(job_sm2, (n,)) for n in ("private_key", "public_key", "signature", "cipher")]
    module()
    deep = c.tier != "quick"
    for cfg in ("portable", "simd"):
        _proto.MODS[cfg] = build_module(cfg, ["sm.cpp"])
        for j in object_jobs(deep):
            jobs.append((_proto.job, (cfg,) + j))
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    main()
