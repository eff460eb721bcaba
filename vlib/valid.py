"""Import of keys and points: accepted exactly when the standards allow the value; generation of keys."""
from .engine import Ptr, Finding, UNDEF
from .ir import AnalysisError
from .anf import tobits
from .fe import FE, CONSTS
from .proto import Proto, Int, CURVES
from . import sm2spec as S2, sm9spec as S9
from .sm2spec import paths, sizes, decode_conditions, judge, nonce_error, attempts, same_cells, point_bytes, encode_point, PCN


def below(w, t, p):
    b = w.rng(t)
    return True if b[1] < p else False if b[0] >= p else None


def curve_conditions(w, g, cells, p, what="the point"):
    """cells: per coordinate component (low first) the bytes"""
    r = w.rings["fp2" if g == "2" else "fp9"]
    cond = [("coordinate %d of %s is smaller than the field prime" % (i, what), below(w, c[0].v, p)) for i, c in enumerate(cells)]
    vals = [w.known_zero(v) for v in w.curve_value(g, [w.from_cells(r, c) for c in cells])]
    cond.append(("%s lies on the curve" % what, True if all(v is True for v in vals) else False if False in vals else None))
    return cond


def sm2_pub(m, n, how):
    key = "SM2 public key import (%s), %d-byte digest" % (how, S2.DS[n])

    def body(w):
        x, y = w.tok("X", 32), w.tok("Y", 32)
        k = w.buf("pub", sizes(m, n)[0])
        kind, _ = w.call("h_sm2_%s_pub_%s" % (n, how), [k, w.mem("x", x), w.mem("y", y)])
        acc = kind == "ret"
        e = judge(acc, curve_conditions(w, "2", [x, y], S2.P))
        if e or not acc:
            return e
        a, b = w.buf("ox", 32), w.buf("oy", 32)
        w.call("h_sm2_%s_pub_get" % n, [k, a, b])
        return same_cells(w, w.read(a, 32) + w.read(b, 32), x + y, "the exported key")
    return paths(m, key, body)


def sm2_priv(m, n, how):
    key = "SM2 private key import (%s), %d-byte digest" % (how, S2.DS[n])

    def body(w):
        d = w.tok("d", 32)
        k = w.buf("key", sizes(m, n)[1])
        kind, _ = w.call("h_sm2_%s_priv_%s" % (n, how), [k, w.mem("d", d)])
        acc = kind == "ret"
        b = w.rng(d[0].v)
        ok = True if b[0] >= 1 and b[1] <= S2.N - 2 else False if b[1] < 1 or b[0] > S2.N - 2 else None
        e = judge(acc, [("the key is in [1, n-2]", ok)])
        if e or not acc:
            return e
        a = w.buf("o", 32)
        w.call("h_sm2_%s_priv_get" % n, [k, a])
        return same_cells(w, w.read(a, 32), w.bytes_of_int(w.int_of(d)), "the exported key") or sm2_pub_of(w, n, k, w.from_cells(w.rings["fn2"], d))
    return paths(m, key, body)


def sm2_pub_of(w, n, k, d):
    """the public half of the key pair is [d]G"""
    kind, p = w.call("h_sm2_%s_fetch" % n, [k])
    a, b = w.buf("ox", 32), w.buf("oy", 32)
    w.call("h_sm2_%s_pub_get" % n, [p, a, b])
    x, y = point_bytes(w, w.scal(w.gen("2"), d))
    return same_cells(w, w.read(a, 32) + w.read(b, 32), x + y, "the public key")


def sm2_gen(m, n, how, prop):
    key = "SM2 key generation (%s), %d-byte digest" % (how, S2.DS[n])

    def body(w):
        k = w.buf("key", sizes(m, n)[1])
        kind, _ = w.call("h_sm2_%s_priv_%s" % (n, how), [k])
        if kind != "ret":
            return "key generation fails"
        a = w.buf("o", 32)
        w.call("h_sm2_%s_priv_get" % n, [k, a])
        c = w.read(a, 32)
        if UNDEF in c:
            return "the key is not stored"
        if len(w.draws) != 1:
            return "%d draws" % len(w.draws)
        if prop == "C16":
            return nonce_error(w, 0, c, 1, S2.N - 2, "private key")
        return sm2_pub_of(w, n, k, w.from_cells(w.rings["fn2"], c))
    return paths(m, key, body)


def sm9_priv(m, n, how):
    key = "SM9 master key import (%s), %d-byte digest" % (how, S9.DS[n])

    def body(w):
        d = w.tok("ks", 32)
        k = w.buf("key", sizes(m, n)[2])
        kind, _ = w.call("h_sm9_%s_m_%s" % (n, how), [k, w.mem("ks", d)])
        acc = kind == "ret"
        b = w.rng(d[0].v)
        ok = True if b[0] >= 1 and b[1] <= S9.N - 1 else False if b[1] < 1 or b[0] > S9.N - 1 else None
        e = judge(acc, [("the key is in [1, n-1]", ok)])
        if e or not acc:
            return e
        a = w.buf("o", 32)
        w.call("h_sm9_%s_m_get" % n, [k, a])
        return same_cells(w, w.read(a, 32), w.bytes_of_int(w.int_of(d)), "the exported key") or sm9_pub_of(w, n, k, w.from_cells(w.rings["fn9"], d))
    return paths(m, key, body)


def sm9_pub_of(w, n, k, ks):
    kind, p = w.call("h_sm9_%s_m_fetch" % n, [k])
    a, b = w.buf("ox", 64), w.buf("oy", 64)
    w.call("h_sm9_%s_p_get" % n, [p, a, b])
    c = [w.bytes_of(v) for v in w.coords(w.scal(w.gen("T"), ks))]
    return same_cells(w, w.read(a, 64) + w.read(b, 64), c[1] + c[0] + c[3] + c[2], "the public key")


def sm9_gen(m, n, how, prop):
    key = "SM9 master key generation (%s), %d-byte digest" % (how, S9.DS[n])

    def body(w):
        k = w.buf("key", sizes(m, n)[2])
        kind, _ = w.call("h_sm9_%s_m_%s" % (n, how), [k])
        if kind != "ret":
            return "key generation fails"
        a = w.buf("o", 32)
        w.call("h_sm9_%s_m_get" % n, [k, a])
        c = w.read(a, 32)
        if UNDEF in c:
            return "the key is not stored"
        if len(w.draws) != 1:
            return "%d draws" % len(w.draws)
        if prop == "C16":
            return nonce_error(w, 0, c, 1, S9.N - 1, "master key")
        return sm9_pub_of(w, n, k, w.from_cells(w.rings["fn9"], c))
    return paths(m, key, body)


def g2_tokens(w, name):
    c = {}
    for a in "xy":
        for i in "10":
            c[a + i] = w.tok(name + a + i, 32)
    return c["x1"] + c["x0"], c["y1"] + c["y0"], [c["x0"], c["x1"], c["y0"], c["y1"]]


def sm9_pub(m, n):
    key = "SM9 master public key import, %d-byte digest" % S9.DS[n]

    def body(w):
        x, y, comp = g2_tokens(w, "P")
        k = w.buf("pub", sizes(m, n)[3])
        kind, _ = w.call("h_sm9_%s_p_set" % n, [k, w.mem("x", x), w.mem("y", y)])
        acc = kind == "ret"
        e = judge(acc, curve_conditions(w, "T", comp, S9.P))
        if e or not acc:
            return e
        a, b = w.buf("ox", 64), w.buf("oy", 64)
        w.call("h_sm9_%s_p_get" % n, [k, a, b])
        return same_cells(w, w.read(a, 64) + w.read(b, 64), x + y, "the exported key")
    return paths(m, key, body)


def sm9_user(m, n):
    key = "SM9 user key import, %d-byte digest" % S9.DS[n]

    def body(w):
        x, y, comp = g2_tokens(w, "P")
        a, b = w.tok("Dx", 32), w.tok("Dy", 32)
        k = w.buf("user key", sizes(m, n)[4])
        kind, _ = w.call("h_sm9_%s_k_set" % n, [k, w.mem("a", a), w.mem("b", b), w.mem("x", x), w.mem("y", y)])
        acc = kind == "ret"
        e = judge(acc, curve_conditions(w, "9", [a, b], S9.P, "the private point") + curve_conditions(w, "T", comp, S9.P, "the public key"))
        if e or not acc:
            return e
        o = [w.buf("o%d" % i, s) for i, s in enumerate((32, 32, 64, 64))]
        w.call("h_sm9_%s_k_get" % n, [k] + o)
        return same_cells(w, [c for p, s in zip(o, (32, 32, 64, 64)) for c in w.read(p, s)], a + b + x + y, "the exported key")
    return paths(m, key, body)


def decode_g2(w, tag, comp, y, have, need, cs):
    """as decode_conditions; the compressed form is not supported by the library"""
    c = [("the tag is that of a full encoding", tag in (4, 6, 7)), ("the input is long enough", have >= need)]
    if not c[0][1] or not c[1][1]:
        return c
    c += curve_conditions(w, "T", comp, S9.P)
    if tag != 4:
        q = w.bitfact(tobits(w.eng.join_bytes([y[-1]]), 8)[0])
        c.append(("the parity of y agrees with the tag", None if q is None else q == bool(tag & 1)))
    if cs is not None:
        fs = [w.from_cells(w.rings["fp9"], x) for x in comp]
        c.append(("the decoded coordinates are those of the input", all(w.known_zero(a - b) is True for a, b in zip(cs, fs))))
    return c


def decode(m, g, tags, inls):
    """point decoding for every tag and many lengths"""
    ns = {"2": "sm2::internal::sm2_ec_a_from_bytes", "9": "sm9::internal::sm9_ec_a_from_bytes", "T": "sm9::internal::sm9_ec2_a_from_bytes"}[g]
    rs = []
    for tag in tags:
        for inl in inls:
            def body(w):
                if g == "T":
                    x, y, comp = g2_tokens(w, "")
                else:
                    x, y = w.tok("X", 32), w.tok("Y", 32)
                inp = ([tag] + x + y + w.tok("more", 8))[:inl]
                R, rn = w.buf("R", 2 * len(x)), w.buf("read_n", 8)
                kind, v = w.call(ns, [R, rn, w.mem("input", inp), inl])
                if kind != "ret" or type(v) is not int:
                    return "outcome %s %r" % (kind, v)
                acc = v == 0
                need = 1 + len(x) if tag in (2, 3) else 1 + 2 * len(x)
                cs = None
                if acc:
                    r = w.rings["fp2" if g == "2" else "fp9"]
                    cs = [w.get(w.st, r, Ptr(R.obj, 32 * i)) for i in range(len(x) // 16)]
                if g == "T":
                    e = judge(acc, decode_g2(w, tag, comp, y, inl, need, cs))
                else:
                    e = judge(acc, decode_conditions(w, g, tag, x, y, inl, need, cs))
                if e or not acc:
                    return e
                o = w.read(rn, 8)
                if any(type(c) is not int for c in o) or int.from_bytes(bytes(o), "little") != need:
                    return "the number of bytes read is not %d" % need
                return None
            rs.append(paths(m, "%s point decoding, tag %02x, %d bytes" % (CURVES[g].name, tag, inl), body))
    return rs


def encode(m, g):
    """the three encodings of a finite point, and that the decoder inverts them is decode()"""
    ns, pre = {"2": ("sm2::internal", "sm2_ec"), "9": ("sm9::internal", "sm9_ec"), "T": ("sm9::internal", "sm9_ec2")}[g]
    fld = "fp2" if g == "2" else "fp9"
    deg = 2 if g == "T" else 1
    rs = []
    for fn, pc in (("uncompressed", 0), ("compressed", 1), ("mix", 2), ("04", 3)):
        def body(w):
            r = w.rings[fld]
            cs = [FE(r, r.var("c%d" % i)) for i in range(2 * deg)]
            P = w.new(w.st, "P", cs)
            n = 32 * deg
            size = {0: 2 * n + 1, 1: n + 1, 2: 2 * n + 1, 3: 2 * n}[pc]
            o = w.buf("out", size)
            w.call("%s::%s_a_to_bytes%s" % (ns, pre, "04" if pc == 3 else "_" + fn), [o, P])
            b = [w.bytes_of(c) for c in cs]
            x = b[0] if deg == 1 else b[1] + b[0]
            y = b[1] if deg == 1 else b[3] + b[2]
            from .anf import tobits
            lsb = tobits(w.eng.join_bytes([y[-1]]), 8)[0]
            want = {0: [4] + x + y, 1: [("tag", 2, lsb)] + x, 2: [("tag", 6, lsb)] + x + y, 3: x + y}[pc]
            return same_cells(w, w.read(o, size), want, "the encoding")
        rs.append(paths(m, "%s point encoding, %s" % (CURVES[g].name, fn), body))
    return rs


def plaintext_len(m, n):
    """announced plaintext length for every tag and length"""
    ds = S2.DS[n]
    rs = []
    for tag in range(256):
        head = {2: 33, 3: 33, 4: 65, 6: 65, 7: 65}.get(tag)
        for cl in (0, 1, 2, 33, (head or 65) + ds - 1, (head or 65) + ds, (head or 65) + ds + 9):
            def body(w):
                c = ([tag] + w.tok("ct", 200))[:cl]
                kind, v = w.call("h_sm2_%s_plen" % n, [w.mem("ct", c), cl])
                ok = cl > 0 and head is not None and cl >= head + ds
                if ok != (kind == "ret"):
                    return "%s a ciphertext of %d bytes with tag %02x" % ("rejects" if ok else "accepts", cl, tag)
                return None if not ok or v == cl - head - ds else "returns %r" % (v,)
            r = paths(m, "", body)
            if not r.ok or tag in (2, 4, 6):
                r.key = "SM2 plaintext length, %d-byte digest, tag %02x, %d bytes" % (ds, tag, cl)
                rs.append(r)
    from .core import Result
    rs.append(Result("SM2 plaintext length, %d-byte digest, all 256 tags" % ds, all(r.ok for r in rs), rs[0].where, "see the individual tags"))
    return rs
