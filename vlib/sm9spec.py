"""What GB/T 38635.2 prescribes for the SM9 signature objects, compared with every path through the code (vlib/proto.py)."""
from .engine import Ptr, Finding, UNDEF, Part
from .ir import AnalysisError
from .fe import FE, CONSTS
from .proto import Proto, Cut, Int, Pt
from .anf import tobits
from .sm2spec import (paths, sizes, DS, id_cells, nonce_error, attempts, out_number, same_cells, encode_point, point_bytes, decode_conditions, judge, PCN)

N = CONSTS["fn9"]
P = CONSTS["fp9"]


def hn(w, n, z, tag):
    """H1 / H2 of the standard as an integer term"""
    ds = DS[n]
    ha = []
    i = 1
    while len(ha) < 40:
        ha += w.digest(ds, (tag,) + tuple(z) + tuple(i.to_bytes(4, "big")))
        i += 1
    v = w.int_of(ha[:40])
    return Int(("mod", v, N - 1), 1)


def setup_master(w, n):
    ks = w.tok("ks", 32)
    w.bounds[ks[0].v] = [1, N - 1]
    k = w.buf("master", sizes(w.m, n)[2])
    kind, _ = w.call("h_sm9_%s_m_new" % n, [k, w.mem("ks", ks)])
    if kind != "ret":
        raise Finding("reject", "a master key in range is rejected", w.eng.where())
    w.scalars.clear()
    return k, w.from_cells(w.rings["fn9"], ks)


def g2_unknown(w, name):
    """a point of the twist given by its coordinates: (x bytes, y bytes, field elements)"""
    r = w.rings["fp9"]
    b = []
    f = []
    for c in "xy":
        hi, lo = w.tok(name + c + "1", 32), w.tok(name + c + "0", 32)
        b.append(hi + lo)
        for t in (hi, lo):
            w.bounds[t[0].v] = [0, P - 1]
        f += [w.from_cells(r, lo), w.from_cells(r, hi)]
    for e in w.curve_value("T", f):
        w.assume_zero(r, e.n)
    return b[0], b[1], f


def g1_unknown(w, name):
    r = w.rings["fp9"]
    x, y = w.tok(name + "x", 32), w.tok(name + "y", 32)
    for t in (x, y):
        w.bounds[t[0].v] = [0, P - 1]
    f = [w.from_cells(r, x), w.from_cells(r, y)]
    w.assume_zero(r, w.curve_value("9", f)[0].n)
    return x, y, f


def setup_pub(w, n):
    x, y, f = g2_unknown(w, "P")
    k = w.buf("pub", sizes(w.m, n)[3])
    kind, _ = w.call("h_sm9_%s_p_set" % n, [k, w.mem("x", x), w.mem("y", y)])
    if kind != "ret":
        raise Finding("reject", "a public key on the curve is rejected", w.eng.where())
    return k, w.point("T", f)


def setup_user(w, n):
    """user key object with an arbitrary private point and master public key"""
    x, y, f = g2_unknown(w, "P")
    a, b, g = g1_unknown(w, "D")
    k = w.buf("user key", sizes(w.m, n)[4])
    kind, _ = w.call("h_sm9_%s_k_set" % n, [k, w.mem("a", a), w.mem("b", b), w.mem("x", x), w.mem("y", y)])
    if kind != "ret":
        raise Finding("reject", "a valid user key is rejected", w.eng.where())
    return k, w.point("9", g), w.point("T", f)


def mrange(obj, ln):
    return (("range", obj.obj, 0, ln),)


def extract(m, n, idlen, hid, prop):
    key = "SM9 key extraction, %d-byte digest, %d-byte identity, hid %d" % (DS[n], idlen, hid)

    def body(w):
        k, ks = setup_master(w, n)
        out = w.buf("user key", sizes(m, n)[4])
        idp = w.mem("id", id_cells(w, idlen))
        kind, _ = w.call("h_sm9_%s_m_key" % n, [k, out, idp, idlen, hid])
        h1 = hn(w, n, w.stream(id_cells(w, idlen) + [hid]), 1)
        t1 = w.fe_of(ks.r, h1) + ks
        z = w.known_zero(t1)
        if kind == "throw":
            return None if z is True else "key extraction fails although H1(ID||hid) + ks is not known to be zero"
        if z is not False:
            return "a user key is produced although H1(ID||hid) + ks = 0 was not excluded"
        if w.draws:
            return "key extraction draws random numbers"
        b = [w.buf("o%d" % i, s) for i, s in enumerate((32, 32, 64, 64))]
        kind, _ = w.call("h_sm9_%s_k_get" % n, [out] + b)
        want = w.scal(w.gen("9"), ks * t1.inv())
        x, y = point_bytes(w, want)
        for p, c, nm in ((b[0], x, "abscissa"), (b[1], y, "ordinate")):
            e = same_cells(w, w.read(p, 32), c, "the %s of the user key" % nm)
            if e:
                return e
        c = [w.bytes_of(v) for v in w.coords(w.scal(w.gen("T"), ks))]
        e = same_cells(w, w.read(b[2], 64) + w.read(b[3], 64), c[1] + c[0] + c[3] + c[2], "the master public key of the user key")
        return e
    return paths(m, key, body)


def sign(m, n, pc, prop, maxdraw=2):
    key = "SM9 sign, %d-byte digest, %s point" % (DS[n], PCN[pc])

    def body(w):
        k, da, q = setup_user(w, n)
        ml = w.sym_len("M")
        mo = w.buf("message", 0)
        sl = 32 + (33 if pc == 1 else 65)
        sig, ol = w.buf("signature", sl), w.buf("length", 8)
        cut = False
        w.scalars.clear()
        try:
            kind, _ = w.call("h_sm9_%s_sign" % n, [k, sig, ol, mo, ml, pc])
        except Cut:
            kind, cut = "cut", True
        if kind == "throw":
            return "signing fails for a valid key"
        at = [s for s in w.scalars if s[0] == "pow"]
        if len(at) != len(w.draws):
            return "%d random draws but %d candidate nonces" % (len(w.draws), len(at))
        g = w.pair(w.gen("9"), q)
        for j, s in enumerate(at):
            if prop == "C16":
                e = nonce_error(w, j, s[2], 1, N - 1, "nonce")
                if e:
                    return e
            h = hn(w, n, mrange(mo, ml) + w.stream(w.gt_bytes(w.gt_pow(g, s[3]))), 2)
            fh = w.fe_of(s[3].r, h)
            l = s[3] - fh
            z = w.known_zero(l)
            if j < len(at) - 1 or cut:
                if z is not True:
                    return "the attempt is repeated although r - h is not known to be zero"
                continue
            if z is not False:
                return "a signature is output although r = h was not excluded"
            if prop == "C16":
                return None
            got = w.read(sig, sl)
            gh, e = out_number(w, s[3].r, got[:32], "h")
            if e:
                return e
            if not w.known_zero(gh - fh):
                return "the signature does not contain h = H2(M||w)"
            e = same_cells(w, got[32:], encode_point(w, w.scal(da, l), pc), "the encoded point S")
            if e:
                return e
            o = w.read(ol, 8)
            if any(type(c) is not int for c in o) or int.from_bytes(bytes(o), "little") != sl:
                return "the signature length is not returned"
        return None
    return paths(m, key, body, maxdraw=maxdraw)


def verify(m, n, tag, extra, idlen, hid, prop, owner=False):
    """extra: bytes more (or less) than the exact signature length"""
    key = "SM9 verify%s, %d-byte digest, tag %02x, %+d bytes, %d-byte identity, hid %d" % (" by the user key" if owner else "", DS[n], tag, extra, idlen, hid)

    def body(w):
        if owner:
            k, _, q = setup_user(w, n)
        else:
            k, q = setup_pub(w, n)
        ml = w.sym_len("M")
        mo = w.buf("message", 0)
        h, x, y = w.tok("h", 32), w.tok("Sx", 32), w.tok("Sy", 32)
        comp = tag in (2, 3)
        full = h + [tag] + x + ([] if comp else y)
        sig = (full + w.tok("more", 8))[:len(full) + extra]
        h1 = hn(w, n, w.stream(id_cells(w, idlen) + [hid]), 1)
        r = w.rings["fn9"]
        t = w.plus(w.scal(w.gen("T"), w.fe_of(r, h1)), q)
        w.facts[("inf", t.key)] = False       # H1(ID||hid) = -ks: no such user exists
        w.affine_before = set(w.affine)
        kind, v = w.call("h_sm9_%s_%sverify" % (n, "k" if owner else ""), [k, w.mem("signature", sig), len(sig), mo, ml, w.mem("id", id_cells(w, idlen)), idlen, hid])
        if kind != "ret":
            return "verification throws"
        if type(v) is not int:
            return "result of verification is %r" % (v,)
        acc = bool(v & 1)
        if prop == "C18":
            return "accepts a signature of %d bytes instead of %d" % (len(sig), len(full)) if acc and extra else None
        bases = [b for b in w.affine if b not in w.affine_before and b[0] == "9"]
        cs = list(bases[-1][1]) if bases else None
        cond = [("the signature has the exact length", extra == 0)]
        if extra == 0:
            cond += decode_conditions(w, "9", tag, x, y, len(sig) - 32, len(full) - 32, cs)
        if prop == "C17":
            cond = [c for c in cond if c[1] is not None or True]
        if cs is not None and extra == 0 and prop != "C17":
            s = w.point("9", cs)
            u = w.gt_mul(w.pair(s, t), w.gt_pow(w.pair(w.gen("9"), q), w.from_cells(r, h)))
            h2 = hn(w, n, mrange(mo, ml) + w.stream(w.gt_bytes(u)), 2)
            cond.append(("H2(M||w') = h", w.bytes_fact(w.bytes_of_int(h2), h)))
        if prop == "C17":
            if acc and extra == 0:
                # h is in [1, n-1]: it was found equal to bytes that are
                b = w.rng(h[0].v)
                ok = b[0] >= 1 and b[1] <= N - 1
                for kk, vv in w.facts.items():
                    if kk[0] == "bytes" and vv and all(any(c == tuple(tobits(w.eng.join_bytes([hc]), 8)) for p in kk[1] for c in p) for hc in h):
                        ok = ok or w.equal_in_range(kk[1], h, 1, N - 1)
                cond.append(("h is in [1, n-1]", ok))
            return judge(True, cond) if acc else None
        return judge(acc, cond)
    return paths(m, key, body)
