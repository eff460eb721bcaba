#!/usr/bin/env python3
"""C19: ASN.1 encoders write the DER encoding, exactly as long as announced."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.lin import L, P, U, explore, lin
from vlib import asn1spec as A
from vlib.asn1enc import header, hdrlen, written, int_value, FIELDS
from checks.c18 import module, report

MAXLEN = 1 << 60


def bad(f, w, msg):
    return [(f.dem, "%s, when %s" % (msg, w.path()))]


def verdict(w, f, outl, announced, want, size=None):
    """want: list of (length, content)"""
    total = L(0)
    for n, _ in want:
        total = total + n
    total = w.norm(total)
    if not w.equal(outl, total):
        return bad(f, w, "reports %r bytes written instead of %r" % (w.norm(outl), total))
    if announced is not None and not w.equal(announced, total):
        return bad(f, w, "announces %r bytes instead of %r" % (w.norm(announced), total))
    e = written(w, "out", want)
    if e:
        return bad(f, w, e)
    return None


def job_tl(kind, tag):
    f = module().fn("asn1::asn1_encode_%s_tl" % kind)

    def job(w):
        n = w.sym("value_length", 0, MAXLEN)
        want = header(w, tag, n)
        p, o = w.region("out", L(len(want)), "out"), w.local(8, "outl")
        w.run(f, [p, o, w.norm(n)])
        return verdict(w, f, w.load(o, 8), None, want)
    return report("asn1_encode_%s_tl" % kind, *explore(module(), job), f)


def largest(w, f, name, n, e):
    """the maximal length for a value of n bytes is at least e"""
    mx = w.run(module().fn("h_max_" + name), [w.norm(lin(n))])
    if not w.proves(w.norm(mx - e)):
        return bad(f, w, "the maximal length %r is smaller than %r" % (w.norm(mx), w.norm(e)))


def job_outl(name):
    """announced length of an element, from the length of its value"""
    f = module().fn("asn1::asn1_encode_%s_outl" % name)

    def job(w):
        n = w.sym("value_length", 0, MAXLEN)
        if name == "boolean":
            r, e = w.run(f, []), L(3)
        else:
            r = w.run(f, [n])
            v = w.floor(w.norm(n) + 7, 8) + 1 if name == "bit_string" else w.norm(n)
            e = w.norm(hdrlen(w, v) + v)
        if not w.equal(r, e):
            return bad(f, w, "announces %r instead of %r" % (w.norm(r), e))
        return largest(w, f, name, n, e)
    return report("asn1_encode_%s_outl" % name, *explore(module(), job), f)


def job_boolean():
    f = module().fn("asn1::asn1_encode_boolean_tlv")

    def job(w):
        v = w.sym("value", 0, 1)
        p, o = w.region("out", L(3), "out"), w.local(8, "outl")
        w.run(f, [p, o, v])
        return verdict(w, f, w.load(o, 8), None, [(1, L(1)), (1, L(1)), (1, L(0) if w.is_zero(v) else L(255))])
    return report("asn1_encode_boolean_tlv", *explore(module(), job), f)


def job_octets():
    f, g = module().fn("asn1::asn1_encode_octet_string_tlv"), module().fn("asn1::asn1_encode_octet_string_outl")

    def job(w):
        n = w.sym("data_len", 0, MAXLEN)
        d = w.region("data", n, "in")
        a = w.run(g, [n])
        p, o = w.region("out", a, "out"), w.local(8, "outl")
        w.run(f, [p, o, d, w.norm(n)])
        return verdict(w, f, w.load(o, 8), a, header(w, 4, n) + [(n, ("run", "data", L(0).key()))])
    return report("asn1_encode_octet_string_tlv", *explore(module(), job), f)


def job_bits():
    f, g = module().fn("asn1::asn1_encode_bit_string_tlv"), module().fn("asn1::asn1_encode_bit_string_outl")

    def job(w):
        bits = w.sym("data_bits", 0, MAXLEN)
        n = w.floor(bits + 7, 8)
        d = w.region("data", n, "in")
        a = w.run(g, [bits])
        p, o = w.region("out", a, "out"), w.local(8, "outl")
        w.run(f, [p, o, d, w.norm(n), w.norm(bits)])
        n = w.norm(n)
        return verdict(w, f, w.load(o, 8), a, header(w, 3, n + 1) + [(1, n.scale(8) - bits), (n, ("run", "data", L(0).key()))])
    return report("asn1_encode_bit_string_tlv", *explore(module(), job), f)


def job_integer(k):
    f, g = module().fn("asn1::asn1_encode_integer_tlv"), module().fn("asn1::asn1_encode_integer_outl")

    def job(w):
        d = w.region("data", L(k), "in")
        a = w.run(g, [d, L(k)])
        p, o = w.region("out", a, "out"), w.local(8, "outl")
        w.run(f, [p, o, d, L(k)])
        v = int_value(w, "data", L(0), k)
        n = L(0)
        for x, _ in v:
            n = n + x
        return verdict(w, f, w.load(o, 8), a, header(w, 2, n) + v) or largest(w, f, "integer", L(k), a)
    return report("asn1_encode_integer_tlv/%d bytes" % k, *explore(module(), job), f)


def hook_int(w):
    def vlen(w, p, n):
        return w.sym(("vlen", p.r, w.norm(p.o).key(), w.norm(n).key()), 1, w.norm(n).c + 1)

    def outl(w, g, a):
        w.access(a[0], a[1], "read (through %s)" % g.dem.split("(")[0])
        v = vlen(w, a[0], a[1])
        return w.norm(hdrlen(w, v) + v)

    def tlv(w, g, a):
        w.access(a[2], a[3], "read (through %s)" % g.dem.split("(")[0])
        v = vlen(w, a[2], a[3])
        n = w.norm(hdrlen(w, v) + v)
        r, o, _ = w.access(a[0], n, "write (through %s)" % g.dem.split("(")[0])
        r.log.append((o, n, ("int", a[2].r, w.norm(a[2].o).key(), w.norm(a[3]).key())))
        w.store(a[1], n, 8)
    w.hook(r"^asn1::asn1_encode_integer_outl\(", outl)
    w.hook(r"^asn1::asn1_encode_integer_tlv\(", tlv)
    return vlen


def job_sm2(name):
    m = module()
    fs = m.find(r"^sm2::internal::sm2_%s_asn1_encode(_outl)?\(" % name, one=False)
    g = [f for f in fs if len(f.args) == 1]
    f = [f for f in fs if len(f.args) == 3]
    if len(g) != 1 or len(f) != 1:
        raise AnalysisError("encoder of %s not found" % name)
    f, g = f[0], g[0]

    def job(w):
        vlen = hook_int(w)
        obj = w.local(8 * {"private_key": 1, "public_key": 1, "signature": 2, "cipher": 6}[name], name)
        at = 0
        body = []
        for kind, nm, n in FIELDS[name]:
            ln = lin(n) if n else w.sym(nm + "_len", 0, MAXLEN >> 2)
            p = w.region(nm, ln, "in")
            w.store(P(obj.r, at), p, 8)
            at += 8
            if not n:
                w.store(P(obj.r, at), ln, 8)
                at += 8
            if kind == "int":
                v = vlen(w, p, ln)
                body.append((w.norm(hdrlen(w, v) + v), ("int", nm, L(0).key(), L(32).key())))
            elif kind == "bits":
                body += header(w, 3, ln + 1) + [(1, L(0)), (ln, ("run", nm, L(0).key()))]
            else:
                body += header(w, 4, ln) + [(w.norm(ln), ("run", nm, L(0).key()))]
        if name in ("signature", "cipher"):
            n = L(0)
            for x, _ in body:
                n = n + x
            body = header(w, 0x30, w.norm(n)) + body
        a = w.run(g, [obj])
        p, o = w.region("out", a, "out"), w.local(8, "outl")
        w.run(f, [p, o, obj])
        r = verdict(w, f, w.load(o, 8), a, body)
        if r is None and name == "cipher":
            mx = w.run(m.fn("sm2::internal::sm2_cipher_asn1_encode_max_outl"), [w.norm(w.sym("hash_len")), w.norm(w.sym("text_len"))])
            if not w.proves(w.norm(mx - a)):
                return bad(f, w, "the maximal length %r is smaller than the encoding" % mx)
        elif r is None:
            mx = w.run(m.fn("h_max_" + name), [L(0)])
            if not w.proves(w.norm(mx - a)):
                return bad(f, w, "the maximal length %r is smaller than the encoding" % mx)
        return r
    return report("sm2_%s_asn1_encode" % name, *explore(module(), job), f)


def job_short(name):
    """an integer whose encoding is shorter than 32 bytes is decoded again"""
    m = module()
    f = m.fn("sm2::internal::sm2_%s_asn1_decode" % name)
    nf = {"private_key": 1, "signature": 2, "cipher": 6}[name]
    key = "sm2_%s_asn1_decode/integer below 2^247" % name

    def job(w):
        from checks.c18 import summaries
        summaries(w)
        n = w.sym("inl", 0, MAXLEN)
        w.region("in", n, "in")
        off = L(0)
        if name != "private_key":
            s = A.element(w, "sequence", "in", off, n, A.tlv_abstract)
            if s is None:
                return None
            off, n = s["ptr"], s["len"]
        e = A.element(w, "integer", "in", off, n, A.tlv_abstract)
        if e is None or not w.nonneg(L(31) - e["len"]):
            return None
        if name != "private_key":
            off, n = w.norm(off + e["read"]), w.norm(n - e["read"])
            for kind in (["integer"] if name == "signature" else ["integer", "octet_string", "octet_string"]):
                e = A.element(w, kind, "in", off, n, A.tlv_abstract)
                if e is None or kind == "integer" and not w.is_zero(e["len"] - 32):
                    return None
                off, n = w.norm(off + e["read"]), w.norm(n - e["read"])
            if not w.is_zero(n):
                return None
        ret = w.run(f, [w.local(8 * nf, name), w.local(8, "read_num"), P("in", 0), w.norm(w.sym("inl"))])
        if not w.equal(ret, L(0)):
            return bad(f, w, "the DER encoding of an integer smaller than 2^247 is rejected")
    out, st = explore(module(), job)
    return report(key, out, st, f)


def main():
    c = Check("C19", "other",
              "for every length (symbolic) and content, the bytes an encoder writes are the DER encoding of the value, lie inside a buffer of the announced size, and the written "
              "and announced lengths are equal; SM2 structures are built from encoded fields in order; decoders are compared with the parser definition in C18",
              min_obligations=30,
              assumptions=["clang 18 IR of the current sources is the analysed program", "no value is longer than 2^60 bytes", "the BIT STRING encoder is given ceil(bits/8) bytes"])
    module()
    ks = list(range(0, 41)) + [127, 128]
    if c.tier != "quick":
        ks += [64, 96, 255, 256, 257, 300]
    jobs = [(job_tl, x) for x in (("sequence", 0x30), ("set", 0x31), ("octet_string", 0x24), ("bit_string", 0x23))]
    jobs += [(job_outl, (x,)) for x in ("tlv", "boolean", "octet_string", "sequence", "set", "bit_string")]
    jobs += [(job_boolean, ()), (job_octets, ()), (job_bits, ())]
    jobs += [(job_sm2, (x,)) for x in ("private_key", "public_key", "signature", "cipher")]
    jobs += [(job_short, (x,)) for x in ("private_key", "signature", "cipher")]
    jobs += [(job_integer, (k,)) for k in sorted(ks, reverse=True)]
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    main()
