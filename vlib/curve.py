"""Group law of y^2 = x^3 + a x + b over F_p or F_p[u]/(u^2+2) decided on the code of the point operations: every
operation runs once per kind of operand (generic, equal, opposite, infinity; projective scalings as unknowns) and its
result must be the point the group law prescribes, as an identity of rational functions of the coordinates."""
from .core import Result
from .engine import State, Ptr, Finding, UNDEF
from .ir import AnalysisError
from .fe import Field, FE, cases, CONSTS, SH
from .util import stats, real_where


class El(tuple):
    """element of F_p (length 1) or F_p[u]/(u^2+2) (length 2) with FE components"""

    def __add__(a, b):
        return El(x + y for x, y in zip(a, b))

    def __sub__(a, b):
        return El(x - y for x, y in zip(a, b))

    def __neg__(a):
        return El(-x for x in a)

    def __mul__(a, b):
        if type(b) is int:
            return El(x * b for x in a)
        if len(a) == 1:
            return El((a[0] * b[0],))
        return El((a[0] * b[0] - a[1] * b[1] * 2, a[0] * b[1] + a[1] * b[0]))

    def __eq__(a, b):
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))

    __hash__ = tuple.__hash__

    def norm(a):
        return a[0] if len(a) == 1 else a[0] * a[0] + a[1] * a[1] * 2

    def inv(a):
        n = a.norm().inv()
        return El((n,)) if len(a) == 1 else El((a[0] * n, -(a[1] * n)))

    def zero(a):
        return all(not x.r.reduce(x.n) for x in a)

    def const(a):
        return all(x.const() is not None for x in a)


class Curve:
    """what one group of the library is"""

    def __init__(self, name, fld, deg, ns, p, a, b, g, order, fp2=""):
        self.name, self.fld, self.deg, self.ns, self.p = name, fld, deg, ns, p
        self.a, self.b, self.g, self.order = a, b, g, order

    def fn(self, m, op):
        return m.fn("%s::%s_%s" % (self.ns, self.p, op))


SM2 = Curve("SM2", "fp2", 1, "sm2::internal", "sm2_ec", (-3,), (0x28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93,),
            ((0x32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7,), (0xBC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0,)),
            CONSTS["fn2"])
SM9 = Curve("SM9 G1", "fp9", 1, "sm9::internal", "sm9_ec", (0,), (5,),
            ((0x93DE051D62BF718FF5ED0704487D01D6E1E4086909DC3280E8C4E4817C66DDDD,), (0x21FE8DDA4F21E607631065125C395BBC1C1C00CBFA6024350C464CD70A3EA616,)),
            CONSTS["fn9"])
SM9T = Curve("SM9 G2", "fp9", 2, "sm9::internal", "sm9_ec2", (0, 0), (0, 5),
             ((0x3722755292130B08D2AAB97FD34EC120EE265948D19C17ABF9B7213BAF82D65B, 0x85AEF3D078640C98597B6027B441A01FF1DD2C190F5E93C454806C11D8806141),
              (0xA7CF28D519BE3DA65F3170153D278FF247EFBA98A71A08116215BBA5C999A7C7, 0x17509B092E845C1266BA0D262CBEE6ED0736A96FA347C8BD856DC76B84EBEB96)),
             CONSTS["fn9"])


class W(Field):
    """one analysed situation"""

    def __init__(self, m, cv, script=()):
        Field.__init__(self, m, script)
        self.cv = cv
        self.st = State()
        self.nzvec = []
        if cv.deg == 2:
            P = r"^sm9::internal::sm9_fp2_"

            def eq(fn, n):
                def h(eng, st, f, a):
                    v = fn(*[El((self.get(st, self.rings["fp9"], p), self.get(st, self.rings["fp9"], Ptr(p.obj, p.off + 32)))) for p in a[:n]])
                    d = self.known_zero(v)
                    return NotImplemented if d is None else int(d)
                return h
            self.eng.hook(P + r"equal\(", eq(lambda a, b: a - b, 2))
            self.eng.hook(P + r"equal_zero\(", eq(lambda a: a, 1))
            self.eng.hook(P + r"equal_one\(", eq(lambda a: a - self.k(1), 1))

    # ------------------------------------------------------------ elements
    def at(self, name):
        r = self.rings[self.cv.fld]
        return El(FE(r, r.var("%s.%d" % (name, i) if self.cv.deg > 1 else name)) for i in range(self.cv.deg))

    def k(self, c, *more):
        r = self.rings[self.cv.fld]
        v = (c,) + more if not isinstance(c, tuple) else c
        v = v + (0,) * (self.cv.deg - len(v))
        return El(FE(r, r.const(x)) for x in v)

    def nz(self, *els):
        for e in els:
            self.nonzero[self.cv.fld].append(e.norm().n)
            if len(e) > 1:
                self.nzvec.append(e)

    def known_zero(self, v):
        """True / False / None"""
        if v.zero():
            return True
        n = v.norm()
        r = n.r
        n = r.reduce(n.n)
        for z in self.nonzero[self.cv.fld]:
            while True:
                if len(n) == 1 and 0 in n:
                    return False
                q = r.exact_div(n, z)
                if q is None:
                    break
                n = q
        return False if len(n) == 1 and 0 in n else None

    def is_zero(self, v):
        if self.cv.deg == 2:
            for e in self.nzvec:
                for i in (0, 1):
                    if e[i].n == v.n or (-e[i]).n == v.n:
                        if not e[1 - i].r.reduce(e[1 - i].n) or any(z == e[1 - i].n or z == (-e[1 - i]).n for z in self.zeros):
                            return False
        k = len(self.taken)
        d = Field.is_zero(self, v)
        if len(self.taken) > k and d:
            self.zeros.append(v.n)
        return d

    zeros = property(lambda s: s.__dict__.setdefault("_zeros", []))

    # -------------------------------------------------------------- memory
    def obj(self, name, els, extra=0):
        flat = [x for e in els for x in e] + [None] * (extra * self.cv.deg)
        return self.new(self.st, name, flat)

    def rd(self, st, p, i):
        r = self.rings[self.cv.fld]
        n = 32 * self.cv.deg
        return El(self.get(st, r, Ptr(p.obj, p.off + n * i + 32 * j), "result") for j in range(self.cv.deg))

    # ----------------------------------------------------------- references
    def add_ref(self, P, Q):
        (X1, Y1, Z1), (X2, Y2, Z2) = P, Q
        Z11, Z22 = Z1 * Z1, Z2 * Z2
        U1, U2 = X1 * Z22, X2 * Z11
        S1, S2 = Y1 * Z2 * Z22, Y2 * Z1 * Z11
        H, r = U2 - U1, S2 - S1
        H2 = H * H
        H3 = H2 * H
        V = U1 * H2
        X3 = r * r - H3 - V * 2
        return X3, r * (V - X3) - S1 * H3, H * Z1 * Z2

    def dbl_ref(self, P):
        X, Y, Z = P
        M = X * X * 3
        if any(self.cv.a):
            Z2 = Z * Z
            M = M + Z2 * Z2 * self.k(self.cv.a)
        Y2 = Y * Y
        S = X * Y2 * 4
        X3 = M * M - S * 2
        return X3, M * (S - X3) - Y2 * Y2 * 8, Y * Z * 2

    def curve_eq(self, P):
        X, Y, Z = P
        Z2 = Z * Z
        Z4 = Z2 * Z2
        return Y * Y - X * X * X - X * Z4 * self.k(self.cv.a) - Z4 * Z2 * self.k(self.cv.b)

    def on_curve(self, P):
        """make (X,Y,Z) satisfy the curve equation: Y^2 rewritten (degree 1 only)"""
        if self.cv.deg == 1:
            X, Y, Z = P
            Z2 = Z * Z
            Z4 = Z2 * Z2
            self.curve_rule(Y[0], (X * X * X + X * Z4 * self.k(self.cv.a) + Z4 * Z2 * self.k(self.cv.b))[0])

    def ratio(self, a, b):
        """a/b when it is a constant of F_p"""
        r = a[0].r
        for x, y in zip(a, b):
            if y.n and x.n and x.one() and y.one():
                m = max(y.n)
                c = x.n.get(m, 0) * pow(y.n[m], -1, r.p) % r.p
                if c and all(u == v * c for u, v in zip(a, b)):
                    return c
        return None

    def same_point(self, got, ref):
        """got ~ ref (finite), returns error text or None"""
        if self.known_zero(got[2]) is not False:
            return "third coordinate of the result is not certain to be nonzero: %r" % (got[2],)
        c = self.ratio(got[2], ref[2])
        if c is not None:
            dx, dy = got[0] - ref[0] * (c * c), got[1] - ref[1] * (c ** 3)
        else:
            a, b = got[2] * got[2], ref[2] * ref[2]
            dx = got[0] * b - ref[0] * a
            dy = got[1] * b * ref[2] - ref[1] * a * got[2]
        for n, d in (("x", dx), ("y", dy)):
            if not d.zero():
                return "wrong %s coordinate; difference %r" % (n, d)
        return None

    def is_inf(self, got):
        if not got[2].zero():
            return "third coordinate of the result is %r, not zero" % (got[2],)
        if self.known_zero(got[0]) is not False or not (got[0] * got[0] * got[0] - got[1] * got[1]).zero():
            return "result has zero third coordinate but is not a representation of the point at infinity"
        return None


def run(m, cv, op, key, body, opt_curve=False):
    """body(w) -> error text or None, evaluated for all decisions; in a situation with undecidable comparisons every outcome must
    agree with the group law, except outcomes that rest on a hypothesis that cannot be examined further"""
    f = cv.fn(m, op)

    def once(script):
        w = W(m, cv, script)
        try:
            r = body(w, f)
        except Finding as e:
            r = "%s: %s" % (e.kind, e.msg)
        return w.taken, (r, w)
    out = cases(once)
    bad = [(t, r, w) for t, (r, w) in out if r]
    w0 = out[0][1][1]
    if bad:
        # inequalities hold generically: a wrong outcome that rests on them alone is one
        t, r, w = next((x for x in bad if not x[2].open), bad[0])
        if w.open:
            raise AnalysisError("%s: cannot decide %s (%s)" % (key, w.open, r))
        if t:
            r += " (when %s)" % ", ".join("%s %s 0" % (x, "=" if d else "!=") for x, d in t)
        return Result(key, False, real_where(w.eng, f), r, stats(w.eng))
    return Result(key, True, real_where(w0.eng, f), "", stats(w0.eng))


def call(w, f, args):
    outs = w.eng.call(w.st, f, args)
    if len(outs) != 1 or outs[0][0] != "ret":
        raise AnalysisError("%d outcomes of %s" % (len(outs), f.dem))
    return outs[0][1], outs[0][2]


KINDS2 = ("different points", "equal points", "opposite points", "first infinite", "second infinite", "both infinite")


def operands(w, kind, affine=False):
    """(P, Q, expected result: ref triple or None for infinity)"""
    X1, Y1, Z1, t, s = [w.at(n) for n in ("X1", "Y1", "Z1", "t", "s")]
    X2, Y2, Z2, mu = [w.at(n) for n in ("X2", "Y2", "Z2", "mu")]
    one, zero = w.k(1), w.k(0)
    w.nz(Y1, Z1, t, s, Y2, mu)
    if affine:
        Z2 = one
    else:
        w.nz(Z2)
    P, Q = (X1, Y1, Z1), (X2, Y2, Z2)
    inf1, inf2 = (t * t, t * t * t, zero), (s * s, s * s * s, zero)
    if kind == "different points":
        H = X1 * Z2 * Z2 - X2 * Z1 * Z1
        w.nz(H)
        return P, Q, w.add_ref(P, Q)
    if kind in ("equal points", "opposite points"):
        if affine:
            # P is the scaling of the affine point
            P = (X2 * Z1 * Z1, Y2 * Z1 * Z1 * Z1, Z1)
            Q = (X2, Y2, one)
        else:
            Q = (X1 * mu * mu, Y1 * mu * mu * mu, Z1 * mu)
        ref = w.dbl_ref(Q if affine else P)
        if kind == "opposite points":
            Q = (Q[0], -Q[1], Q[2])
            ref = None
        return P, Q, ref
    if kind == "first infinite":
        return inf1, Q, Q
    if kind == "second infinite":
        return P, inf2, P
    return inf1, inf2, None


def judge(w, st, p, ref):
    got = tuple(w.rd(st, p, i) for i in range(3))
    return w.is_inf(got) if ref is None else w.same_point(got, ref)


def t_add(m, cv, kind, alias):
    def body(w, f):
        P, Q, ref = operands(w, kind)
        p = w.obj("P", P)
        q = w.obj("Q", Q)
        r = p if alias == "result over first" else q if alias == "result over second" else w.obj("R", [], 3)
        st, _ = call(w, f, [r, p, q])
        return judge(w, st, r, ref)
    return run(m, cv, "j_add", "%s addition: %s, %s" % (cv.name, kind, alias), body)


def t_add_same(m, cv, kind, alias):
    """both operands the same object"""
    def body(w, f):
        P, Q, _ = operands(w, "both infinite" if kind == "infinity" else "different points")
        p = w.obj("P", P)
        r = p if alias else w.obj("R", [], 3)
        st, _ = call(w, f, [r, p, p])
        return judge(w, st, r, None if kind == "infinity" else w.dbl_ref(P))
    return run(m, cv, "j_add", "%s addition of an object to itself: %s%s" % (cv.name, kind, ", in place" if alias else ""), body)


def t_adda(m, cv, kind, alias):
    def body(w, f):
        P, Q, ref = operands(w, kind, True)
        p = w.obj("P", P)
        q = w.obj("Q", Q[:2])
        r = p if alias else w.obj("R", [], 3)
        st, _ = call(w, f, [r, p, q])
        return judge(w, st, r, ref)
    return run(m, cv, "j_add_a", "%s mixed addition: %s%s" % (cv.name, kind, ", in place" if alias else ""), body)


def t_unary(m, cv, op, kind, alias):
    def body(w, f):
        P, Q, _ = operands(w, "both infinite" if kind == "infinity" else "different points")
        p = w.obj("P", P)
        r = p if alias else w.obj("R", [], 3)
        st, _ = call(w, f, [r, p])
        if kind == "infinity":
            e = judge(w, st, r, None)
        else:
            e = judge(w, st, r, {"j_dbl": w.dbl_ref, "j_neg": lambda P: (P[0], -P[1], P[2]), "j_cpy": lambda P: P, "j_normal": lambda P: P}[op](P))
        if not e and op == "j_normal" and kind != "infinity" and w.rd(st, r, 2) != w.k(1):
            e = "third coordinate of a normalised point is %r" % (w.rd(st, r, 2),)
        return e
    return run(m, cv, op, "%s %s: %s%s" % (cv.name, op, kind, ", in place" if alias else ""), body)


def t_inf(m, cv):
    rs = []

    def body(w, f):
        r = w.obj("R", [], 3)
        st, _ = call(w, f, [r])
        return judge(w, st, r, None)
    rs.append(run(m, cv, "j_set_inf", "%s set_inf" % cv.name, body))
    for kind in ("finite", "infinity"):
        def body(w, f):
            P, Q, _ = operands(w, "both infinite" if kind == "infinity" else "different points")
            st, v = call(w, f, [w.obj("P", P)])
            return None if (v & 1) == (kind == "infinity") else "returns %r" % (v,)
        rs.append(run(m, cv, "j_is_inf", "%s is_inf: %s" % (cv.name, kind), body))
    for kind in KINDS2 + ("same object",):
        def body(w, f):
            P, Q, ref = operands(w, kind if kind != "same object" else "different points")
            p = w.obj("P", P)
            st, v = call(w, f, [p, p if kind == "same object" else w.obj("Q", Q)])
            want = kind in ("equal points", "both infinite", "same object")
            return None if (v & 1) == want else "returns %r" % (v,)
        rs.append(run(m, cv, "j_equal", "%s equality: %s" % (cv.name, kind), body))
    return rs


def t_affine(m, cv):
    rs = []
    n = cv.deg

    def aff(w, st, r):
        return w.rd(st, r, 0), w.rd(st, r, 1)

    def body(w, f):
        P, Q, _ = operands(w, "different points")
        r = w.obj("R", [], 3)
        st, _ = call(w, f, [r, w.obj("Q", Q[:2])])
        got = [w.rd(st, r, i) for i in range(3)]
        return w.same_point(got, (Q[0], Q[1], w.k(1)))
    rs.append(run(m, cv, "j_from_a", "%s from affine" % cv.name, body))
    for op, al in (("j_to_a", 0), ("j_to_a", 1), ("a_neg", 0), ("a_neg", 1), ("a_cpy", 0), ("a_cpy", 1)):
        def body(w, f):
            P, Q, _ = operands(w, "different points")
            if op[0] == "a":
                P = P[:2]
            p = w.obj("P", P)
            r = p if al else w.obj("R", [], 2)
            st, _ = call(w, f, [r, p])
            if op == "j_to_a":
                i = P[2].inv()
                want = (P[0] * i * i, P[1] * i * i * i)
            else:
                want = (P[0], -P[1] if op == "a_neg" else P[1])
            got = aff(w, st, r)
            return None if got == want else "returns (%r, %r)" % got
        rs.append(run(m, cv, op, "%s %s%s" % (cv.name, op, " in place" if al else ""), body))
    for on in (True, False):
        def body(w, f):
            x, y = w.at("x"), w.at("y")
            if on:
                # the constant b is what x and y make it: run with the point (x, y) satisfying the equation
                if n == 1:
                    w.on_curve((x, y, w.k(1)))
                else:
                    e = y * y - x * x * x
                    c = w.curve_eq((x, y, w.k(1)))
                    w.eqs = c
            else:
                c = w.curve_eq((x, y, w.k(1)))
                w.nz(c)
            p = w.obj("P", (x, y))
            st, v = call(w, f, [p])
            if on and n == 2:
                # one decision per component, taken as zero: they must be exactly the components of the equation
                c = w.curve_eq((x, y, w.k(1)))
                asked = list(w.zeros)
                for z in asked:
                    if not any(z == u.n or z == (-u).n for u in c):
                        return "compares something that need not hold on the curve"
                if not all(d for _, d in w.taken):
                    return None
            return None if (v & 1) == on else "returns %r" % (v,)
        if n == 1 or not on:
            rs.append(run(m, cv, "a_check", "%s curve membership: point %s the curve" % (cv.name, "on" if on else "off"), body))
        else:
            rs.append(run2(m, cv, "%s curve membership: point on the curve" % cv.name, body))
    return rs


def run2(m, cv, key, body):
    """a point of the quadratic twist on the curve: only the run in which every equality holds"""
    f = cv.fn(m, "a_check")
    w = W(m, cv, [])
    try:
        e = body(w, f)
    except Finding as x:
        e = "%s: %s" % (x.kind, x.msg)
    return Result(key, not e, real_where(w.eng, f), e or "", stats(w.eng))


def jobs(m, cv):
    r = []
    for kind in KINDS2:
        for al in ("separate result", "result over first", "result over second"):
            r.append((t_add, (m, cv, kind, al)))
    for kind in ("finite", "infinity"):
        for al in (0, 1):
            r.append((t_add_same, (m, cv, kind, al)))
            for op in ("j_dbl", "j_neg", "j_cpy", "j_normal"):
                r.append((t_unary, (m, cv, op, kind, al)))
    for kind in KINDS2:
        if "second" in kind or "both" in kind:
            continue
        for al in (0, 1):
            r.append((t_adda, (m, cv, kind, al)))
    r.append((t_inf, (m, cv)))
    r.append((t_affine, (m, cv)))
    return r


def constants(m, cv, items):
    """items: (symbol, bytes expected)"""
    rs = []
    for sym, want in items:
        g = m.globals.get(m.gname(sym)) if hasattr(m, "gname") else None
        if g is None:
            c = [x for x in m.globals.values() if x["dem"] == cv.ns + "::" + sym]
            if len(c) != 1:
                raise AnalysisError("constant " + sym)
            g = c[0]
        got = bytes.fromhex(g["data"])[:len(want)]
        rs.append(Result("%s constant %s" % (cv.name, sym), got == want and g["const"] and g["size"] == len(want), "%s:%s" % (g["file"].replace("/repo/", ""), g["line"]),
                         "is %s" % got.hex()))
    return rs
