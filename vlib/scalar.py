"""Scalar multiplication and powering decided over integers: a group element is [v]P with v an integer polynomial in the bits
of the scalar; the group operations (decided separately) act on v; branches on scalar bits merge as v = c*a + (1-c)*b.
The loop structure is made concrete by splitting on the positions of the leading bits."""
from . import anf
from .anf import atom_bit, mk, tobits, POLYS, MONOS, ATOMS, Bits
from .core import Result
from .engine import Engine, State, Ptr, Part, Finding, UNDEF
from .ir import AnalysisError
from .fe import FeDomain, G, parts
from .util import stats, real_where


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m | n
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


_b = {}


def bitpoly(b):
    """0/1-valued integer polynomial of a GF(2) polynomial"""
    r = _b.get(b)
    if r is None:
        r = {}
        for m in POLYS[b]:
            x = {MONOS[m]: 1}
            r = padd(padd(r, x), pmul(r, x), -2)
        _b[b] = r
    return r


def pshow(p, lim=5):
    if not p:
        return "0"
    return " + ".join("%s%s" % (hex(c), "".join("*%s%s" % (ATOMS[a][0], ATOMS[a][1:]) for a in sorted(m))) for m, c in list(p.items())[:lim]) + (
        " + ..(%d terms)" % len(p) if len(p) > lim else "")


class GDomain(FeDomain):
    def split(self, v, n):
        return parts(v, n) if isinstance(v, G) else FeDomain.split(self, v, n)

    def select(self, c, a, b):
        if isinstance(a, G) or isinstance(b, G):
            if not (isinstance(a, G) and isinstance(b, G)):
                raise AnalysisError("group element merged with something else")
            cp = bitpoly(tobits(c, 1)[0])
            if a.base is b.base and a.k == b.k:
                return G(padd(b.s, pmul(cp, padd(a.s, b.s, -1))), a.base, a.k)
            fa, fb = a.flat(), b.flat()
            return G(padd(fb, pmul(cp, padd(fa, fb, -1))))
        return FeDomain.select(self, c, a, b)


def gadd(a, b):
    if a.base is b.base:
        return G(padd(a.s, b.s), a.base, a.k + b.k)
    if b.base is None and len(b.s) < 8:
        return G(padd(a.s, b.s), a.base, a.k)
    if a.base is None and len(a.s) < 8:
        return G(padd(a.s, b.s), b.base, b.k)
    return G(padd(a.flat(), b.flat()))


class Group:
    """hooks of the group operations; sizes in bytes of the affine and projective object"""

    def __init__(self, m, prefix, na, nj):
        self.m, self.na, self.nj = m, na, nj
        self.d = GDomain()
        self.eng = Engine(m, self.d)
        self.st = State()
        e = self.eng
        P = "^" + prefix + "_"
        aff = {"a": na, "j": nj}

        def op(name, fn, rk, *ks):
            def h(eng, st, f, a):
                self.put(st, a[0], fn(*[self.get(st, p, aff[k]) for p, k in zip(a[1:], ks)]), aff[rk])
            e.hook(P + name + r"\(", h)
        op("j_dbl", lambda a: G({}, a, 2), "j", "j")
        op("j_add", gadd, "j", "j", "j")
        op("j_add_a", gadd, "j", "j", "a")
        op("j_neg", lambda a: a.scaled(-1), "j", "j")
        op("a_neg", lambda a: a.scaled(-1), "a", "a")
        op("j_cpy", lambda a: a, "j", "j")
        op("a_cpy", lambda a: a, "a", "a")
        op("j_from_a", lambda a: a, "j", "a")
        op("j_normal", lambda a: a, "j", "j")
        op("j_set_inf", lambda: G({}), "j")

    def get(self, st, p, n):
        v = self.eng.join_bytes(self.eng.load_bytes(st, p, n))
        if not isinstance(v, G):
            raise Finding("undef", "something that is not a group element used as one", self.eng.where())
        return v

    def put(self, st, p, g, n):
        self.eng.store_cells(st, p, parts(g, n))


class Scalar:
    """the 256-bit scalar k with remainder e modulo the order: case (0, or 2 when k is the order; zero or leading bit of e, leading bit of 3e)"""

    def __init__(self, g, order, case):
        self.g, self.order, self.case = g, order, case
        red, h, t = case
        self.k = [atom_bit(("k", i)) for i in range(256)]
        self.e = [0] * 256 if h is None else [atom_bit(("e", i)) if i < h else int(i == h) for i in range(256)]
        self.ge = atom_bit(("k>=n",))
        if red == 2:
            # the order itself: concrete bits, no hooks
            self.k = [order >> i & 1 for i in range(256)]

            def arith(name, n, fn):
                def h(eng, st, f, a):
                    v = []
                    for p in a[1:1 + n]:
                        b = self.bits(st, p)
                        if not all(x in (0, 1) for x in b):
                            return NotImplemented
                        v.append(sum(x << i for i, x in enumerate(b)))
                    r = fn(*v)
                    self.store(st, a[0], [r >> i & 1 for i in range(256)])
                    return abs(r >> 256)
                g.eng.hook(r"^number::internal::(common|x64)::uint256_" + name + r"\(", h)
            arith("tpl_carry", 1, lambda a: 3 * a)
            arith("sub_borrow", 2, lambda a, b: a - b)
            arith("add_carry", 2, lambda a, b: a + b)
            return
        e = g.eng
        P = r"^number::internal::(common|x64)::uint256_"
        e.hook(P + r"from_bytes\(", self.from_bytes)
        e.hook(P + r"cmp\(", self.cmp)
        e.hook(P + r"sub_borrow\(", self.sub)
        e.hook(P + r"equal_zero\(", self.is0)
        e.hook(P + r"tpl_carry\(", self.tpl)
        e.hook(P + r"bittest\(", self.test)

    def bits(self, st, p):
        return tuple(tobits(self.g.eng.join_bytes(self.g.eng.load_bytes(st, p, 32)), 256))

    def store(self, st, p, bits):
        self.g.eng.store_cells(st, p, [mk(tuple(bits[8 * i:8 * i + 8])) for i in range(32)])

    def value(self):
        """k as read: e when it is below the order, k otherwise"""
        return tuple(anf.bsel(self.ge, k, e) for k, e in zip(self.k, self.e))

    def from_bytes(self, eng, st, f, a):
        cells = eng.load_bytes(st, a[1], 32)
        v = tobits(eng.join_bytes(list(reversed(cells))), 256)
        if tuple(v) != tuple(self.k):
            raise AnalysisError("a number other than the scalar is converted at " + eng.where())
        self.store(st, a[0], self.value())

    def cmp(self, eng, st, f, a):
        x, y = self.bits(st, a[0]), self.bits(st, a[1])
        n = sum(b << i for i, b in enumerate(y)) if all(b in (0, 1) for b in y) else None
        if x != self.value() or n is None:
            raise AnalysisError("unexpected comparison at " + eng.where())
        if n != self.order:
            raise Finding("scalar", "the scalar is compared with %#x, not with the group order" % n, eng.where())
        return mk((1,) + (anf.bnot(self.ge),) * 31)

    def sub(self, eng, st, f, a):
        x, y = self.bits(st, a[1]), self.bits(st, a[2])
        n = sum(b << i for i, b in enumerate(y)) if all(b in (0, 1) for b in y) else None
        if x != self.value() or n != self.order:
            raise Finding("scalar", "unexpected subtraction from the scalar (subtrahend %r)" % (n,), eng.where())
        if not all(self.implied(eng, t) for t in st.paths):
            raise Finding("scalar", "the order is subtracted from a scalar that may be smaller", eng.where())
        self.store(st, a[0], self.e)
        return 0

    def implied(self, eng, trace):
        """the branch conditions of the trace imply k >= order"""
        p = anf.bnot(self.ge)
        for k, pol in trace:
            b = tobits(eng.condvals[k], 1)[0]
            p = anf.band(p, b if pol else anf.bnot(b))
        return p == 0

    def is0(self, eng, st, f, a):
        x = self.bits(st, a[0])
        if x != tuple(self.e):
            raise AnalysisError("unexpected zero test at " + eng.where())
        return int(self.case[1] is None)

    def tpl(self, eng, st, f, a):
        x = self.bits(st, a[1])
        if x != tuple(self.e):
            raise AnalysisError("unexpected tripling at " + eng.where())
        red, h, t = self.case
        if h is None:
            self.store(st, a[0], [0] * 256)
            return 0
        self.store(st, a[0], self.e3()[:256])
        return {256: 1, 257: 2}.get(t, 0)

    def e3(self):
        red, h, t = self.case
        # bit 0 of 3e is bit 0 of e; 3e < 3 * 2^(h+1) so the bit below the leading one is 0 when t = h + 2
        r = [atom_bit(("f", i)) if i < t else int(i == t) for i in range(258)]
        if t == h + 2:
            r[t - 1] = 0
        r[0] = self.e[0]
        return r

    def test(self, eng, st, f, a):
        if type(a[1]) is not int:
            raise AnalysisError("symbolic bit position at " + eng.where())
        i = a[1] & 0xffffffff
        if i > 255:
            raise Finding("scalar", "bit %d of a 256-bit number is read" % (i - (1 << 32) if i >> 31 else i), eng.where())
        b = self.bits(st, a[0])[i]
        return mk((b,))

    def want(self):
        """admissible results, as polynomials: sum e_i 2^i, or with 3e: sum (f_i - e_i) 2^(i-1)"""
        red, h, t = self.case
        if h is None:
            return [{}]
        a, b = {}, {}
        for i in range(256):
            a = padd(a, pscale(bitpoly(self.e[i]), 1 << i))
        f = self.e3()
        for i in range(1, 258):
            b = padd(b, pscale(padd(bitpoly(f[i]), bitpoly(self.e[i]) if i < 256 else {}, -1), 1 << (i - 1)))
        return [a, b]


def mulcase(m, cv, cases):
    """one batch of cases of j_mul_a"""
    f = cv.fn(m, "j_mul_a")
    rs = []
    g = None
    for case in cases:
        g = Group(m, "%s::%s" % (cv.ns, cv.p), 64 * cv.deg, 96 * cv.deg)
        s = Scalar(g, cv.order, case)
        P = Ptr(g.eng.new_obj(g.st, "P", g.na, "input"), 0)
        R = Ptr(g.eng.new_obj(g.st, "R", g.nj, "input"), 0)
        k = Ptr(g.eng.new_obj(g.st, "k", 32, "input"), 0)
        g.put(g.st, P, G({frozenset(): 1}), g.na)
        for i in range(32):
            g.st.mem[k.obj].cells[i] = mk(tuple(s.k[8 * (31 - i):8 * (31 - i) + 8]))
        key = "%s scalar multiplication: scalar %s, %s" % (
            cv.name, {0: "reduced", 2: "equal to the order"}[case[0]],
            "zero multiple" if case[1] is None else "leading bits %d and %d" % case[1:])
        try:
            outs = g.eng.call(g.st, f, [R, k, P])
            if len(outs) != 1 or outs[0][0] != "ret":
                raise AnalysisError("%d outcomes" % len(outs))
            got = g.get(outs[0][1], R, g.nj).flat()
            ok = got in s.want() if case[0] != 2 else all(not m and c % cv.order == 0 for m, c in got.items())
            rs.append(Result(key, ok, real_where(g.eng, f), "" if ok else "computes the multiple %s" % pshow(got), stats(g.eng)))
        except Finding as e:
            rs.append(Result(key, False, e.where, "%s: %s" % (e.kind, e.msg)))
    bad = [r for r in rs if not r.ok]
    if bad:
        return bad[:2]
    # one obligation per batch
    tot = {}
    for r in rs:
        for k, v in r.stats.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    tot["functions"] = rs[0].stats["functions"]
    tot["cases"] = len(rs)
    c0, c1 = cases[0], cases[-1]
    return [Result("%s scalar multiplication: %d cases of reduction and leading bits, from %s to %s" % (cv.name, len(cases), c0, c1), True, rs[0].where, "", tot)]


def all_cases(reds=(0,)):
    r = [(0, None, None), (2, None, None)]
    for red in reds:
        for h in range(256):
            for t in (h + 1, h + 2):
                r.append((red, h, t))
    return r


def jobs(m, cv, size=32):
    cs = all_cases()
    return [(mulcase, (m, cv, cs[i:i + size])) for i in range(0, len(cs), size)]


def t_mulg(m, cv):
    """multiplication of the generator hands (scalar, generator) to the general multiplication, or computes the same"""
    from .curve import W
    f = cv.fn(m, "j_mul_g")
    w = W(m, cv)
    seen = []
    tok = G({frozenset(): 1})

    def h(eng, st, ff, a):
        pt = [w.rd(st, a[2], i) for i in range(2)]
        seen.append((a[1], pt, eng.where()))
        eng.store_cells(st, a[0], parts(tok, 96 * cv.deg))
    w.eng.hook("^%s::%s_j_mul_a\\(" % (cv.ns, cv.p), h)
    R = Ptr(w.eng.new_obj(w.st, "R", 96 * cv.deg, "input"), 0)
    k = Ptr(w.eng.new_obj(w.st, "k", 32, "input"), 0)
    key = "%s generator multiplication" % cv.name
    outs = w.eng.call(w.st, f, [R, k])
    if len(outs) != 1:
        raise AnalysisError(key)
    cells = w.eng.load_bytes(outs[0][1], R, 96 * cv.deg)
    if len(seen) != 1:
        raise AnalysisError("%s: %d general multiplications" % (key, len(seen)))
    want = [w.k(*c) for c in cv.g]
    ok = seen[0][0] == k and seen[0][1] == want and cells == parts(tok, 96 * cv.deg)
    return Result(key, ok, real_where(w.eng, f), "" if ok else "multiplies %r, point %r" % (seen[0][0], seen[0][1]), stats(w.eng))
