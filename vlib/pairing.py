"""The R-ate pairing of GB/T 38635.1: line functions as identities of rational functions, the Miller loop as an identity of
divisors, the final exponentiation as an identity of exponents."""
from .core import Result
from .engine import Ptr, Finding
from .ir import AnalysisError
from .fe import G, FE, parts, Tok
from .curve import W, SM9T, SM9, El
from .scalar import Group, padd, pscale
from .tower import T, POS, KAPPA, P9
from .util import stats, real_where

N9 = SM9T.order
t6 = 0x600000000058F98A
A_LOOP = 6 * t6 + 2
E_FINAL = (P9 ** 12 - 1) // N9
NS = "sm9::internal::"


# ------------------------------------------------------------------ lines

def t_line(m, kind):
    """kind: tangent_ja (T,T), line_jja (T,Q jacobian), line_jaa (T, Q affine)"""
    f = m.fn(NS + "sm9_pairing_g_" + kind)
    rs = []
    w = W(m, SM9T)
    X, Y, Z = w.at("XT"), w.at("YT"), w.at("ZT")
    r = w.rings["fp9"]
    xP, yP = FE(r, r.var("xP")), FE(r, r.var("yP"))
    w.nonzero["fp9"].append(yP.n)
    w.nz(Z)
    emb = lambda x: El((x, w.k(0)[0]))
    Pt = w.new(w.st, "P", [xP, yP])
    To = w.obj("T", [X, Y, Z])
    Z2 = Z * Z
    Z3 = Z2 * Z
    if kind == "tangent_ja":
        w.nz(Y)
        # slope 3x^2 / 2y with x = X/Z^2, y = Y/Z^3: 3X^2 / (2YZ)
        dy, dx = X * X * 3, Y * Z * 2
        args = [To]
        c0 = Y * Z * 2
    else:
        xq, yq = w.at("XQ"), w.at("YQ")
        if kind == "line_jja":
            zq = w.at("ZQ")
            w.nz(zq)
        else:
            zq = w.k(1)
        q2 = zq * zq
        q3 = q2 * zq
        # dx = (x_T - x_Q) Z^2 zq^2, dy = (y_T - y_Q) Z^3 zq^3, slope dy / (dx Z zq)
        ex = X * q2 - xq * Z2
        w.nz(ex)
        dy = Y * q3 - yq * Z3
        dx = ex * Z * zq
        els = [xq, yq, zq] if kind == "line_jja" else [xq, yq]
        args = [To, w.obj("Q", els)]
    # line * dx * Z^3:   (Y dx - dy X Z) - yP Z^3 dx v + dy Z^3 xP w^2
    L = {0: Y * dx - dy * X * Z, 3: -(emb(yP) * Z3 * dx), 2: dy * Z3 * emb(xP)}
    F = w.new(w.st, "f", [None] * 12)
    D = w.new(w.st, "d", [None] * 4)
    key = "line function %s" % kind
    try:
        outs = w.eng.call(w.st, f, [F, D] + args + [Pt])
        if len(outs) != 1 or outs[0][0] != "ret":
            raise AnalysisError("%d outcomes" % len(outs))
        st = outs[0][1]
        g = [w.get(st, r, Ptr(F.obj, F.off + 32 * i), "line value") for i in range(12)]
        got = {}
        for i in range(6):
            got[POS[12][2 * i]] = El((g[2 * i], g[2 * i + 1]))
        bad = ""
        # some power of w times an element of F_p2 times the line
        for s in (0,):
            z = w.k(0)
            for e in got:
                if e not in L and not got[e].zero():
                    bad = "coefficient of w^%d is not zero" % e
            for e in (0, 2):
                if not bad and not got[e] * L[3] == got[3] * L[e]:
                    bad = "not proportional to the line through the points (coefficient of w^%d)" % e
            if not bad and w.known_zero(got[3]) is not False:
                raise AnalysisError("cannot show that the line value is not zero")
        rs.append(Result(key, not bad, real_where(w.eng, f), bad, stats(w.eng)))
    except Finding as e:
        rs.append(Result(key, False, e.where, "%s: %s" % (e.kind, e.msg)))
    return rs


def t_frob_point(m, k):
    """frobenius of a point of the twist: psi^-1 pi^k psi (x, y) = (x^(p^k) kappa^(-2k), y^(p^k) kappa^(-3k))"""
    f = m.fn(NS + "sm9_ec2_j_frobenius%s_a" % ("" if k == 1 else k))
    w = W(m, SM9T)
    x, y = w.at("x"), w.at("y")
    Q = w.obj("Q", [x, y])
    R = w.obj("R", [w.at("u"), w.at("v"), w.at("z")])
    outs = w.eng.call(w.st, f, [R, Q])
    key = "point frobenius %d" % k
    if len(outs) != 1 or outs[0][0] != "ret":
        raise AnalysisError(key)
    X, Y, Z = [w.rd(outs[0][1], R, i) for i in range(3)]
    cj = (lambda e: El((e[0], -e[1]))) if k % 2 else (lambda e: e)
    # kappa is in F_p: w^(1-p^k) = kappa^-k
    K = w.k(pow(KAPPA, k, P9))
    Z2 = Z * Z
    K2 = K * K
    ok = X * K2 == cj(x) * Z2 and Y * K2 * K == cj(y) * Z2 * Z and not Z.zero()
    return Result(key, ok, real_where(w.eng, f), "" if ok else "not the image of the point under Frobenius", stats(w.eng))


# ------------------------------------------------------- Miller loop, power

ONE, PI, PI2 = "Q", "pi(Q)", "pi2(Q)"
EIG = {ONE: 1, PI: P9 % N9, PI2: P9 * P9 % N9}
UP = {ONE: PI, PI: PI2}


def pval(s):
    """point -> residue (multiple of Q)"""
    return sum(c * EIG[k] for k, c in s.items()) % N9


def show(s):
    return " + ".join("%#x*%s" % (c, k) for k, c in sorted(s.items())) or "O"


class Pairing(Group):
    def __init__(self, m):
        Group.__init__(self, m, "sm9::internal::sm9_ec2", 128, 192)
        self.lines = {}
        e = self.eng
        P = r"^sm9::internal::sm9_"
        self.P = None

        def pt(st, p, n):
            g = self.get(st, p, n)
            s = g.flat()
            if any(k not in EIG for k in s):
                raise Finding("pairing", "a field element is used as a point", e.where())
            return s

        def frob(k):
            def h(eng, st, f, a):
                s = pt(st, a[1], 128)
                for _ in range(k):
                    if any(x not in UP for x in s):
                        raise AnalysisError("third power of Frobenius")
                    s = {UP[x]: c for x, c in s.items()}
                self.put(st, a[0], G(s), 192)
            return h
        e.hook(P + r"ec2_j_frobenius_a\(", frob(1))
        e.hook(P + r"ec2_j_frobenius2_a\(", frob(2))

        def line(nq):
            def h(eng, st, f, a):
                A = pt(st, a[2], 192)
                B = A if nq is None else pt(st, a[3], nq)
                p = a[3] if nq is None else a[4]
                if eng.load_bytes(st, p, 64) != self.P:
                    raise Finding("pairing", "line evaluated at something other than P", eng.where())
                va, vb = pval(A), pval(B)
                if va == 0 or vb == 0 or (nq is not None and (va == vb or va == N9 - vb)):
                    raise Finding("pairing", "degenerate line through %s and %s" % (show(A), show(B)), eng.where())
                self.putf(st, a[0], G({("line", frozenset(A.items()), frozenset(B.items())): 1}))
            return h
        e.hook(P + r"pairing_g_tangent_ja\(", line(None))
        e.hook(P + r"pairing_g_line_jja\(", line(192))
        e.hook(P + r"pairing_g_line_jaa\(", line(128))

        def op(name, fn, n):
            def h(eng, st, f, a):
                self.putf(st, a[0], fn(*[self.getf(st, p) for p in a[1:1 + n]]))
            e.hook(P + name + r"\(", h)
        M = P9 ** 12 - 1
        norm = lambda s: G({k: c % M for k, c in s.items() if c % M})
        op("fp12_set_one", lambda: G({}), 0)
        op("fp12_cpy", lambda a: a, 1)
        op("fp12_sqr", lambda a: norm(pscale(a.flat(), 2)), 1)
        op("fp12_inv", lambda a: norm(pscale(a.flat(), -1)), 1)
        op("fp12_mul", lambda a, b: norm(padd(a.flat(), b.flat())), 2)
        for k in (1, 2, 3, 6):
            op("fp12_frobenius%s" % ("" if k == 1 else k), lambda a, k=k: norm(pscale(a.flat(), P9 ** k)), 1)

        def power(eng, st, f, a):
            b = eng.load_bytes(st, a[2], 32)
            if any(type(x) is not int for x in b):
                raise AnalysisError("symbolic exponent in the pairing")
            self.putf(st, a[0], norm(pscale(self.getf(st, a[1]).flat(), int.from_bytes(bytes(b), "big"))))
        e.hook(P + r"fp12_pow\(", power)
        # the denominators, which the final power removes
        e.hook(P + r"fp4_set_one\(", lambda eng, st, f, a: eng.store_cells(st, a[0], parts(G({}), 128)))

    def getf(self, st, p):
        v = self.get(st, p, 384)
        if any(k in EIG for k in v.s):
            raise Finding("pairing", "a point is used as a field element", self.eng.where())
        return v

    def putf(self, st, p, g):
        self.put(st, p, g, 384)


def divisor(F):
    """divisor modulo verticals of a product of lines, keyed by the residue class of +-point"""
    d = {}

    def add(v, c):
        v %= N9
        if not v:
            return
        if v > N9 - v:
            v, c = N9 - v, -c
        d[v] = (d.get(v, 0) + c)
    for (tag, A, B), e in F.items():
        a, b = pval(dict(A)), pval(dict(B))
        add(a, e)
        add(b, e)
        add(a + b, -e)
    return d


def reference():
    d = {}

    def add(v, c):
        v %= N9
        if v > N9 - v:
            v, c = N9 - v, -c
        d[v] = d.get(v, 0) + c
    q1, q2 = EIG[PI], EIG[PI2]
    add(1, A_LOOP)
    add(q1, 1)
    add(-q2, 1)
    add(A_LOOP + q1 - q2, -1)
    return d


def t_pairing(m):
    f = m.fn(NS + "sm9_pairing")
    p = Pairing(m)
    R = Ptr(p.eng.new_obj(p.st, "r", 384, "input"), 0)
    Pk = p.eng.new_obj(p.st, "P", 64, "input")
    Q = Ptr(p.eng.new_obj(p.st, "Q", 128, "input"), 0)
    p.put(p.st, Q, G({ONE: 1}), 128)
    p.eng.store_cells(p.st, Ptr(Pk, 0), parts(Tok(("P",), 64), 64))
    p.P = p.eng.load_bytes(p.st, Ptr(Pk, 0), 64)
    key = "pairing: Miller loop and final exponentiation"
    try:
        outs = p.eng.call(p.st, f, [R, Ptr(Pk, 0), Q])
        if len(outs) != 1 or outs[0][0] != "ret":
            raise AnalysisError("%d outcomes" % len(outs))
        F = p.getf(outs[0][1], R).flat()
        bad = ""
        G_ = {}
        for k, e in F.items():
            if e % E_FINAL:
                bad = "the result is not a power (p^12-1)/n of the Miller value (line through %s and %s)" % (show(dict(k[1])), show(dict(k[2])))
            G_[k] = e // E_FINAL
        if not bad:
            got, want = divisor(G_), reference()
            diff = [(v, got.get(v, 0), want.get(v, 0)) for v in set(got) | set(want) if (got.get(v, 0) - want.get(v, 0)) % N9]
            if diff:
                bad = "divisor differs at %d points, e.g. multiplicity %d of [%#x]Q instead of %d" % (len(diff), diff[0][1], diff[0][0], diff[0][2])
        s = stats(p.eng)
        s["lines"] = len(F)
        return Result(key, not bad, real_where(p.eng, f), bad, s)
    except Finding as e:
        return Result(key, False, e.where, "%s: %s" % (e.kind, e.msg))


def t_fixed(m, name):
    """pairing with a fixed generator"""
    g1 = name == "sm9_pairing_P1_Q"
    f = m.fn(NS + name)
    w1, seen = W(m, SM9), []
    tok = G({("pairing",): 1})
    w2 = W(m, SM9T)
    w = w1 if g1 else w2

    def h(eng, st, ff, a):
        seen.append(([w.rd(st, a[1 if g1 else 2], i) for i in range(2)], a[2 if g1 else 1]))
        eng.store_cells(st, a[0], parts(tok, 384))
    w.eng.hook(r"^sm9::internal::sm9_pairing\(", h)
    R = Ptr(w.eng.new_obj(w.st, "r", 384, "input"), 0)
    O = Ptr(w.eng.new_obj(w.st, "pt", 128 if g1 else 64, "input"), 0)
    outs = w.eng.call(w.st, f, [R, O])
    if len(outs) != 1 or len(seen) != 1:
        raise AnalysisError(name)
    cv = SM9 if g1 else SM9T
    ok = seen[0][0] == [w.k(*c) for c in cv.g] and seen[0][1] == O and w.eng.load_bytes(outs[0][1], R, 384) == parts(tok, 384)
    return Result(name, ok, real_where(w.eng, f), "" if ok else "pairs other points", stats(w.eng))


def jobs(m):
    return [(t_line, (m, k)) for k in ("tangent_ja", "line_jja", "line_jaa")] + [(t_frob_point, (m, 1)), (t_frob_point, (m, 2)), (t_pairing, (m,)),
                                                                               (t_fixed, (m, "sm9_pairing_P1_Q")), (t_fixed, (m, "sm9_pairing_P_P2"))]
