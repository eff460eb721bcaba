"""What GB/T 32918 prescribes for the SM2 objects, compared with every path through the code (vlib/proto.py)."""
from .core import Result
from .engine import Ptr, Finding, UNDEF, Part
from .ir import AnalysisError
from .fe import FE, CONSTS, cases
from .proto import Proto, Cut, Int, Pt, Tok
from .anf import tobits, bxor
from .util import stats, real_where

N = CONSTS["fn2"]
P = CONSTS["fp2"]
A = [x for x in (P - 3).to_bytes(32, "big")]
B = list(0x28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93 .to_bytes(32, "big"))
GX = list(0x32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7 .to_bytes(32, "big"))
GY = list(0xBC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0 .to_bytes(32, "big"))
DS = {"a": 32, "b": 20}


def paths(m, key, body, limit=2000, maxdraw=2, filt=None):
    """run body(w) on every path; body returns error text or a list of (error text) ; Result with the first error"""
    n = [0, 0]
    last = [None]

    def once(script):
        w = Proto(m, script)
        w.MAXDRAW = maxdraw
        last[0] = w
        try:
            e = body(w)
        except Finding as x:
            e = "%s: %s at %s" % (x.kind, x.msg, x.where)
        n[0] += 1
        n[1] += w.eng.steps
        if e:
            e += " [path: %s]" % w.show_facts()[:700]
        return w.taken, (e, w)
    out = cases(once, limit)
    bad = [e for _, (e, w) in out if e]
    w = last[0]
    st = stats(w.eng)
    st["paths"] = n[0]
    st["steps"] = n[1]
    f = w.eng
    return Result(key, not bad, real_where(f, None), (bad[0] if bad else ""), st)


def id_cells(w, idlen):
    return w.tok("ID", idlen) if idlen else []


def setup_priv(w, n):
    """private key object with d in [1, n-2]; returns (pointer, d as residue)"""
    m = w.m
    size = sizes(m, n)
    d = w.tok("d", 32)
    w.bounds[d[0].v] = [1, N - 2]
    k = w.buf("key", size[1])
    kind, _ = w.call("h_sm2_%s_priv_new" % n, [k, w.mem("d", d)])
    if kind != "ret":
        raise Finding("reject", "a private key in range is rejected", w.eng.where())
    w.scalars.clear()
    return k, w.from_cells(w.rings["fn2"], d)


def sizes(m, n):
    g = m.globals["h_sm_%s_sizes" % n]
    b = bytes.fromhex(g["data"])
    return [int.from_bytes(b[i:i + 8], "little") for i in range(0, 48, 8)]


def setup_pub(w, n):
    """public key object for a point (X, Y) on the curve; returns (pointer, affine point)"""
    m = w.m
    x, y = w.tok("X", 32), w.tok("Y", 32)
    w.bounds[x[0].v] = [0, P - 1]
    w.bounds[y[0].v] = [0, P - 1]
    r = w.rings["fp2"]
    fx, fy = w.from_cells(r, x), w.from_cells(r, y)
    e = w.curve_value("2", [fx, fy])[0]
    w.assume_zero(r, e.n)
    k = w.buf("pub", sizes(m, n)[0])
    kind, _ = w.call("h_sm2_%s_pub_new" % n, [k, w.mem("x", x), w.mem("y", y)])
    if kind != "ret":
        raise Finding("reject", "a public key on the curve is rejected", w.eng.where())
    return k, w.point("2", [fx, fy]), x, y


def point_bytes(w, p):
    c = w.coords(p)
    return [w.bytes_of(v) for v in c]


def zvalue(w, n, idlen, x, y):
    l = idlen * 8
    s = w.stream([l >> 8, l & 255] + id_cells(w, idlen) + A + B + GX + GY + list(x) + list(y))
    return w.digest(DS[n], s)


def evalue(w, n, idlen, x, y, mobj, mlen):
    s = w.stream(zvalue(w, n, idlen, x, y)) + ((("range", mobj.obj, 0, mlen),))
    return w.from_cells(w.rings["fn2"], w.digest(DS[n], s))


def x_as_scalar(w, p):
    """x coordinate as an integer, modulo n"""
    return w.from_cells(w.rings["fn2"], w.bytes_of(w.coords(p)[0]))


def out_number(w, r, cells, what):
    """(value, error) of an output number"""
    for i, c in enumerate(cells):
        if c is UNDEF:
            return None, "byte %d of %s is never written" % (i, what)
    v = w.int_of(cells)
    hi = w.rng(v.t)[1] + v.c if v.t is not None else v.c
    if hi >= r.p:
        return None, "%s is not reduced" % what
    return w.fe_of(r, v), None


def nonce_error(w, j, cells, lo, hi, what="random number"):
    """attempt j must use a scalar that comes from draw j alone and lies in [lo, hi]"""
    v = w.int_of(cells)
    if v.t is None:
        return "%s of attempt %d is the constant %#x" % (what, j + 1, v.c)
    t = w.draws[j] if j < len(w.draws) else None
    if t is None or v.t is not t:
        return "%s of attempt %d is not computed from a fresh draw (it is %r)" % (what, j + 1, v)
    if t.n != 32:
        return "draw of %d bytes instead of 32" % t.n
    a, b = w.rng(t)
    if a + v.c < lo or b + v.c > hi:
        return "%s can be outside [%#x, %#x]: it ranges over [%#x, %#x]" % (what, lo, hi, a + v.c, b + v.c)
    return None


def attempts(w):
    return [s for s in w.scalars if s[0] == "mul_g"]


def sign(m, n, idlen, prop, maxdraw=2, default=False):
    key = "SM2 %ssign, %d-byte digest, %d-byte identity" % ("default-identity " if default else "", DS[n], idlen)

    def body(w):
        k, d = setup_priv(w, n)
        ml = w.sym_len("M")
        mo = w.buf("message", 0)
        sig = w.buf("signature", 64)
        cut = False
        args = [k, sig, mo, ml]
        if not default:
            args += [w.mem("id", id_cells(w, idlen)), idlen]
        try:
            kind, _ = w.call("h_sm2_%s_sign%s" % (n, "def" if default else ""), args)
        except Cut:
            kind, cut = "cut", True
        if idlen > 8191:
            return None if kind == "throw" or prop != "C14" else "an identity too long to be encoded is accepted"
        if kind == "throw":
            return "signing fails for a valid key"
        at = attempts(w)
        if len(at) != len(w.draws):
            return "%d random draws but %d candidate nonces" % (len(w.draws), len(at))
        if prop == "C16":
            for j, s in enumerate(at):
                e = nonce_error(w, j, s[2], 1, N - 1, "nonce")
                if e:
                    return e
        pub = w.scal(w.gen("2"), d)
        px, py = point_bytes(w, pub)
        if default:
            idc = list(b"1234567812345678")
            l = 128
            z = w.digest(DS[n], w.stream([0, l] + idc + A + B + GX + GY + px + py))
            e = w.from_cells(w.rings["fn2"], w.digest(DS[n], w.stream(z) + (("range", mo.obj, 0, ml),)))
        else:
            e = evalue(w, n, idlen, px, py, mo, ml)
        one = FE(d.r, d.r.const(1))
        for j, s in enumerate(at):
            kk = s[3]
            r = e + x_as_scalar(w, w.scal(w.gen("2"), kk))
            sv = (kk - r * d) * (one + d).inv()
            zero = [w.known_zero(v) for v in (r, r + kk, sv)]
            names = ("r = 0", "r + k = 0", "s = 0")
            if j == len(at) - 1 and not cut:
                for q, nm in zip(zero, names):
                    if q is not False:
                        return "a signature is output although %s was not excluded" % nm
                if prop == "C16":
                    return None
                c = w.read(sig, 64)
                gr, er = out_number(w, d.r, c[:32], "r")
                gs, es = out_number(w, d.r, c[32:], "s")
                if er or es:
                    return er or es
                if not w.known_zero(gr - r):
                    return "first half of the signature is %r instead of e + x1 = %r" % (gr, r)
                if not w.known_zero(gs - sv):
                    return "second half of the signature is not (1+d)^-1 (k - r d)"
            elif True not in zero:
                return "the attempt is repeated although r, r + k and s are not known to be zero"
        return None
    return paths(m, "%s" % key, body, maxdraw=maxdraw)


def verify(m, n, idlen, prop, owner=False):
    """signature verification: accepts exactly under the standard's conditions"""
    key = "SM2 verify%s, %d-byte digest, %d-byte identity" % (" by the key pair" if owner else "", DS[n], idlen)

    def body(w):
        if owner:
            k, d = setup_priv(w, n)
            q = w.scal(w.gen("2"), d)
            x, y = point_bytes(w, q)
        else:
            k, q, x, y = setup_pub(w, n)
        ml = w.sym_len("M")
        mo = w.buf("message", 0)
        r, s = w.tok("r", 32), w.tok("s", 32)
        kind, v = w.call("h_sm2_%s_%sverify" % (n, "k" if owner else ""),
                         [k, w.mem("signature", r + s), mo, ml, w.mem("id", id_cells(w, idlen)), idlen])
        if kind != "ret":
            return "verification throws"
        if type(v) is not int:
            return "result of verification is %r" % (v,)
        acc = bool(v & 1)
        if idlen > 8191:
            return "an identity too long to be encoded is accepted" if acc else None
        ring = w.rings["fn2"]
        br, bs = w.rng(r[0].v), w.rng(s[0].v)
        inr = [True if b[0] >= 1 and b[1] <= N - 1 else False if b[1] < 1 or b[0] >= N else None for b in (br, bs)]
        fr, fs = w.from_cells(ring, r), w.from_cells(ring, s)
        t = fr + fs
        e = evalue(w, n, idlen, x, y, mo, ml)
        pt = w.plus(w.scal(w.gen("2"), fs), w.scal(q, t))
        inf = w.known_infinite(pt)
        last = w.known_zero(e + x_as_scalar(w, pt) - fr) if inf is False else None
        cond = [("r is in [1, n-1]", inr[0]), ("s is in [1, n-1]", inr[1]), ("r + s is not zero modulo n", None if w.known_zero(t) is None else not w.known_zero(t)),
                ("s G + t P is finite", None if inf is None else not inf), ("(e + x1) mod n = r", last)]
        if prop == "C17":
            cond = cond[:2]
            if acc:
                bad = [c for c, x in cond if x is not True]
                return "accepts although it is not established that " + bad[0] if bad else None
            return None
        if acc:
            bad = [c for c, x in cond if x is not True]
            return "accepts although it is not established that " + bad[0] if bad else None
        return None if any(x is False for _, x in cond) else "rejects although no condition of the standard is violated"
    return paths(m, key, body)


PCN = {0: "uncompressed", 1: "compressed", 2: "mixed"}


def encode_point(w, p, pc):
    """list of alternatives is not needed: the parity bit decides the tag; returns (cells without tag, tag bits)"""
    x, y = point_bytes(w, p)
    lsb = tobits(w.eng.join_bytes([y[31]]), 8)[0]
    if pc == 0:
        return [4] + x + y
    if pc == 1:
        return [("tag", 2, lsb)] + x
    return [("tag", 6, lsb)] + x + y


def same_cells(w, got, want, what):
    """error text or None"""
    for i, (g, c) in enumerate(zip(got, want)):
        if g is UNDEF:
            return "byte %d of %s is never written" % (i, what)
        if isinstance(c, tuple):
            f = w.bitfact(c[2])
            if f is not None:
                c = c[1] + int(f)
            else:
                gb = tobits(g, 8)
                if gb[0] == c[2] and gb[1:] == tuple(tobits(c[1], 8))[1:]:
                    continue
                return "the tag of %s does not depend on the parity of the ordinate" % what
        gb, cb = tobits(w.eng.join_bytes([g]), 8), tobits(w.eng.join_bytes([c]), 8)
        if gb != cb:
            return "byte %d of %s is wrong" % (i, what)
    return None


def kdf(w, n, z, length):
    """blocks of the key stream"""
    ds = DS[n]
    out = []
    for i in range((length + ds - 1) // ds):
        out.append(w.digest(ds, w.stream(list(z) + list((i + 1).to_bytes(4, "big")))))
    return out


def all_zero(w, blocks, length):
    """True/False/None: the first length bytes of the key stream are all zero"""
    c = [b for blk in blocks for b in blk][:length]
    return w.bytes_fact(c, [0] * length)


def xor_cells(w, a, b):
    r = []
    for x, y in zip(a, b):
        r.append([bxor(p, q) for p, q in zip(tobits(w.eng.join_bytes([x]), 8), tobits(w.eng.join_bytes([y]), 8))])
    return r


def encrypt(m, n, plen, pc, prop, owner=False, maxdraw=2):
    key = "SM2 encrypt%s, %d-byte digest, %s point, %d bytes" % (" by the key pair" if owner else "", DS[n], PCN[pc], plen)
    ds = DS[n]

    def body(w):
        if owner:
            k, d = setup_priv(w, n)
            q = w.scal(w.gen("2"), d)
        else:
            k, q, _, _ = setup_pub(w, n)
        msg = w.tok("M", plen) if plen else []
        c1 = 33 if pc == 1 else 65
        cl = c1 + ds + plen
        kind, v = w.call("h_sm2_%s_%sclen" % (n, "k" if owner else ""), [w.mem("m", msg), plen, pc])
        if kind != "ret" or v != cl:
            return "announced ciphertext length is %r instead of %d" % (v, cl)
        ct, ol = w.buf("ciphertext", cl), w.buf("length", 8)
        cut = False
        w.scalars.clear()
        try:
            kind, _ = w.call("h_sm2_%s_%sencrypt" % (n, "k" if owner else ""), [k, ct, ol, w.mem("message", msg), plen, pc])
        except Cut:
            kind, cut = "cut", True
        if kind == "throw":
            return "encryption fails"
        at = attempts(w)
        if len(at) != len(w.draws):
            return "%d random draws but %d candidate nonces" % (len(w.draws), len(at))
        for j, s in enumerate(at):
            if prop == "C16":
                e = nonce_error(w, j, s[2], 1, N - 1, "nonce")
                if e:
                    return e
            c1p, kp = w.scal(w.gen("2"), s[3]), w.scal(q, s[3])
            x2, y2 = point_bytes(w, kp)
            blocks = kdf(w, n, x2 + y2, plen)
            z = all_zero(w, blocks, plen) if plen else False
            if j < len(at) - 1 or cut:
                if z is not True:
                    return "the attempt is repeated although the key stream is not known to be all zero"
                continue
            if z is not False:
                return "a ciphertext is output although an all-zero key stream was not excluded"
            if prop == "C16":
                return None
            got = w.read(ct, cl)
            e = same_cells(w, got[:c1], encode_point(w, c1p, pc), "the encoded point C1")
            if e:
                return e
            c3 = w.digest(ds, w.stream(x2 + msg + y2))
            e = same_cells(w, got[c1:c1 + ds], c3, "the hash value C3")
            if e:
                return e
            ks = [b for blk in blocks for b in blk][:plen]
            for i, (g, want) in enumerate(zip(got[c1 + ds:], xor_cells(w, msg, ks))):
                if g is UNDEF or list(tobits(w.eng.join_bytes([g]), 8)) != want:
                    return "byte %d of C2 is not message xor key stream" % i
            o = w.read(ol, 8)
            if any(type(c) is not int for c in o) or int.from_bytes(bytes(o), "little") != cl:
                return "the ciphertext length is not returned"
        return None
    return paths(m, key, body, maxdraw=maxdraw)


def parity(w, y):
    """known parity of the integer of a nonzero residue"""
    f = w.bitfact(tobits(w.eng.join_bytes([w.bytes_of(y)[31]]), 8)[0])
    if f is None:
        f = w.bitfact(tobits(w.eng.join_bytes([w.bytes_of(-y)[31]]), 8)[0])
        if f is not None:
            f = not f       # p is odd and there is no point with ordinate zero
    return f


def no_root(w, g, f):
    """is it known that f has no square root"""
    r = f.r
    p = r.p
    name = w.name[p]
    for (fl, vk, k), z in w.pows.items():
        if fl != name or vk != f.key():
            continue
        if 4 * k == p + 1 and w.known_zero(z * z - f) is False:
            return True
        if 4 * k == p - 1:
            one = FE(r, r.const(1))
            if w.known_zero(z - one) is False and w.known_zero(z + one) is False:
                return True
    return False


def decode_conditions(w, g, tag, x, y, have, need, cs):
    """[(condition, True/False/None)] for the decoding of a point; cs: the decoded coordinates when accepted"""
    fld = "fp2" if g == "2" else "fp9"
    p = CONSTS[fld]
    r = w.rings[fld]
    c = [("the tag is known", tag in (2, 3, 4, 6, 7)), ("the input is long enough", have >= need)]
    if not c[0][1] or not c[1][1]:
        return c

    def below(t):
        b = w.rng(t)
        return True if b[1] < p else False if b[0] >= p else None
    c.append(("x < p", below(x[0].v)))
    fx = w.from_cells(r, x)
    if tag in (4, 6, 7):
        c.append(("y < p", below(y[0].v)))
        fy = w.from_cells(r, y)
        e = w.curve_value(g, [fx, fy])[0]
        c.append(("the point lies on the curve", w.known_zero(e)))
        if tag != 4:
            q = w.bitfact(tobits(w.eng.join_bytes([y[31]]), 8)[0])
            c.append(("the parity of y agrees with the tag", None if q is None else q == bool(tag & 1)))
        if cs is not None:
            c.append(("the decoded coordinates are those of the input", bool(w.known_zero(cs[0] - fx) and w.known_zero(cs[1] - fy))))
    else:
        from .proto import CURVES
        cv = CURVES[g]
        f = fx * fx * fx + fx * FE(r, r.const(cv.a[0])) + FE(r, r.const(cv.b[0]))
        f = FE(r, r.reduce(f.n))
        if cs is not None:
            c.append(("the decoded x is that of the input", bool(w.known_zero(cs[0] - fx))))
            c.append(("the decoded y satisfies the curve equation", w.known_zero(cs[1] * cs[1] - f)))
            q = parity(w, cs[1])
            c.append(("the parity of the decoded y agrees with the tag", None if q is None else q == bool(tag & 1)))
        else:
            c.append(("x^3 + a x + b is a square", False if no_root(w, g, f) else None))
    return c


def judge(acc, cond, what="accepts"):
    if acc:
        bad = [c for c, x in cond if x is not True]
        return "%s although it is not established that %s" % (what, bad[0]) if bad else None
    return None if any(x is False for _, x in cond) else "rejects although no condition is violated (%s)" % ", ".join(c for c, x in cond if x is not True)


def decrypt(m, n, tag, plen, prop, mode=""):
    ds = DS[n]
    key = "SM2 decrypt, %d-byte digest, tag %02x, %d bytes" % (ds, tag, plen)

    def body(w):
        k, d = setup_priv(w, n)
        x, y = w.tok("X", 32), w.tok("Y", 32)
        comp = tag in (2, 3)
        c1 = [tag] + x + ([] if comp else y)
        c3 = w.tok("C3", ds)
        c2 = w.tok("C2", plen) if plen else []
        ct = c1 + c3 + c2
        kind, v = w.call("h_sm2_%s_plen" % n, [w.mem("ct", ct), len(ct)])
        if kind != "ret" or v != plen:
            return "announced plaintext length is %r instead of %d" % (v, plen)
        out, ol = w.buf("plaintext", plen), w.buf("length", 8)
        w.affine.clear()
        kind, _ = w.call("h_sm2_%s_decrypt" % n, [k, out, ol, w.mem("ciphertext", ct), len(ct)])
        bases = [b for b in w.affine]
        cs = list(bases[0][1]) if bases else None
        cond = decode_conditions(w, "2", tag, x, y, len(c1), len(c1), cs)
        if cs is not None:
            q = w.point("2", cs)
            x2, y2 = point_bytes(w, w.scal(q, d))
            blocks = kdf(w, n, x2 + y2, plen)
            z = all_zero(w, blocks, plen) if plen else False
            cond.append(("the key stream is not all zero", None if z is None else not z))
            ks = [b for blk in blocks for b in blk][:plen]
            pt = [w.d_bits(b) for b in xor_cells(w, c2, ks)]
            u = w.digest(ds, w.stream(x2 + pt + y2))
            cond.append(("the hash value agrees with C3", w.bytes_fact(u, c3)))
        acc = kind == "ret"
        if prop == "C18":
            return None
        if prop == "C17":
            cond = [c for c in cond if "key stream" not in c[0] and "hash value" not in c[0]]
            return judge(True, cond, "decrypts") if acc else None
        e = judge(acc, cond, "decrypts")
        if e or not acc:
            return e
        got = w.read(out, plen)
        for i, (g, want) in enumerate(zip(got, xor_cells(w, c2, ks))):
            if g is UNDEF or list(tobits(w.eng.join_bytes([g]), 8)) != want:
                return "byte %d of the plaintext is not C2 xor key stream" % i
        o = w.read(ol, 8)
        if any(type(c) is not int for c in o) or int.from_bytes(bytes(o), "little") != plen:
            return "the plaintext length is not returned"
        return None
    return paths(m, key, body)


def short_cipher(m, n, tags, lens):
    """decryption of inputs that are too short or carry an unknown tag: refused, nothing outside the input read, nothing written"""
    ds = DS[n]
    rs = []
    for tag in tags:
        head = {2: 33, 3: 33, 4: 65, 6: 65, 7: 65}.get(tag)
        for cl in lens:
            if head is not None and cl >= head + ds:
                continue

            def body(w):
                k, d = setup_priv(w, n)
                ct = ([tag] + w.tok("X", 32) + w.tok("Y", 32) + w.tok("C3", ds) + w.tok("C2", 64))[:cl]
                out, ol = w.buf("plaintext", 0), w.buf("length", 8)
                kind, _ = w.call("h_sm2_%s_decrypt" % n, [k, out, ol, w.mem("ciphertext", ct), cl])
                return "a ciphertext of %d bytes with tag %02x is accepted" % (cl, tag) if kind == "ret" else None
            rs.append(paths(m, "SM2 decrypt, %d-byte digest, tag %02x, only %d bytes" % (ds, tag, cl), body))
    return rs
