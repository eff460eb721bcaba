"""Reduction of byte strings of any content: uint256_mod and mont256_from_bytes_ex over unknown bytes.
An integer is its residue (a linear form in the bytes modulo the divisor) and a range; word routines are replaced by their contracts (C09)."""
import math
from .core import Result
from .engine import Engine, State, Ptr, Part, UNDEF, Finding
from .ir import AnalysisError
from .fe import FeDomain, Tok, parts, cases
from .util import stats, real_where

TOP = 1 << 256
NSP = {"common": "number::internal::common::", "x64": "number::internal::x64::"}


class Lin:
    """integer congruent to form (mod M) in [lo, hi]; mont: to be divided by 2^256"""
    __slots__ = ("f", "lo", "hi")

    def __init__(self, f, lo, hi):
        self.f, self.lo, self.hi = f, lo, hi


class LinDomain(FeDomain):
    whole_bytes = False

    def opaque(self, c):
        return type(c) is Part and isinstance(c.v, (Tok, Lin))

    def split(self, v, n):
        if isinstance(v, Lin):
            return [Part(v, i, n) for i in range(n)]
        return FeDomain.split(self, v, n)


class W:
    def __init__(self, m, back, M, script):
        self.m, self.M, self.script, self.taken = m, M, script, []
        self.d = LinDomain()
        self.eng = Engine(m, self.d)
        self.d.eng = self.eng
        self.st = State()
        self.zeros = []
        self.back = back
        self.install()

    def decide(self, text):
        k = len(self.taken)
        v = self.script[k] if k < len(self.script) else True
        self.taken.append((text, v))
        return v

    def get(self, p):
        cells = self.eng.load_bytes(self.st, p, 32)
        if all(type(c) is int for c in cells):
            v = int.from_bytes(bytes(cells), "little")
            return Lin({None: v % self.M} if v % self.M else {}, v, v)
        c0 = cells[0]
        if type(c0) is Part and isinstance(c0.v, Lin) and all(type(c) is Part and c.v is c0.v and c.i == i for i, c in enumerate(cells)):
            return c0.v
        if UNDEF in cells:
            raise Finding("undef", "uninitialised integer used", self.eng.where())
        raise AnalysisError("cannot read an integer at %s" % self.eng.where())

    def put(self, p, v):
        self.eng.store_cells(self.st, p, [Part(v, i, 32) for i in range(32)] if v.lo != v.hi else list((v.lo % TOP).to_bytes(32, "little")))

    def form(self, terms):
        r = {}
        for f, k in terms:
            for b, c in f.items():
                r[b] = (r.get(b, 0) + c * k) % self.M
        return {b: c for b, c in r.items() if c}

    def bytes_value(self, cells):
        f, lo, hi = {}, 0, 0
        n = len(cells)
        for i, c in enumerate(cells):
            c = self.d.recover(c)
            k = 256 ** (n - 1 - i)
            if type(c) is int:
                lo += k * c
                hi += k * c
                f = self.form([(f, 1), ({None: c}, k)])
            elif c is UNDEF:
                raise Finding("undef", "number read from an uninitialised byte", self.eng.where())
            elif type(c) is Part and isinstance(c.v, Tok):
                hi += k * 255
                f = self.form([(f, 1), ({c.v.t: 1}, k)])
            else:
                raise AnalysisError("number read from %r at %s" % (c, self.eng.where()))
        return Lin(f, lo, hi)

    def is_divisor(self, v):
        if v.lo != v.hi or v.lo != self.M:
            raise Finding("divisor", "reduction by %#x instead of the divisor" % v.lo, self.eng.where())

    def below(self, a, b):
        """decide a < b for a against a constant, refining a"""
        if b.lo != b.hi:
            raise AnalysisError("comparison of two unknown integers at %s" % self.eng.where())
        if a.hi < b.lo:
            return True
        if a.lo >= b.lo:
            return False
        d = self.decide("below")
        if d:
            a.hi = b.lo - 1
        else:
            a.lo = b.lo
        return d

    def zero(self, a):
        if a.lo > 0:
            return False
        if a.hi == 0:
            return True
        d = self.decide("zero")
        if d:
            a.hi = 0
            self.zeros.append(a.f)
        else:
            a.lo = 1
        return d

    def install(self):
        ns = "^" + NSP[self.back]

        def h(name, fn):
            self.eng.hook(ns + name + r"\(", lambda eng, st, f, a: self.at(st, fn, a))
        h("uint256_set_zero", lambda a: self.put(a[0], Lin({}, 0, 0)))
        h("uint256_from_bytes", lambda a: self.put(a[0], self.bytes_value(self.eng.load_bytes(self.st, a[1], 32))))
        h("uint256_cpy", lambda a: self.put(a[0], self.get(a[1])))

        def cmp(a):
            x, y = self.get(a[0]), self.get(a[1])
            if y.lo != y.hi and x.lo == x.hi:
                return 1 if self.below(y, x) else 0 if self.zero_diff(y, x) else (1 << 32) - 1
            if self.below(x, y):
                return (1 << 32) - 1
            return 1 if x.lo > y.lo else 0 if self.zero_diff(x, y) else 1
        h("uint256_cmp", cmp)
        h("uint256_equal_zero", lambda a: int(self.zero(self.get(a[0]))))

        def addc(a, s=1):
            x, y = self.get(a[1]), self.get(a[2])
            lo, hi = (x.lo + y.lo, x.hi + y.hi) if s > 0 else (x.lo - y.hi, x.hi - y.lo)
            f = self.form([(x.f, 1), (y.f, s)])
            c = 0
            if s > 0 and hi >= TOP:
                c = 1 if lo >= TOP else int(self.decide("carry"))
            elif s < 0 and lo < 0:
                c = 1 if hi < 0 else int(self.decide("borrow"))
            if s > 0:
                lo, hi, f = (max(lo, TOP) - TOP, hi - TOP, self.form([(f, 1), ({None: 1}, -TOP)])) if c else (lo, min(hi, TOP - 1), f)
            else:
                lo, hi, f = (lo + TOP, min(hi, -1) + TOP, self.form([(f, 1), ({None: 1}, TOP)])) if c else (max(lo, 0), hi, f)
            self.put(a[0], Lin(f, lo, hi))
            return c
        h("uint256_add_carry", addc)
        h("uint256_sub_borrow", lambda a: addc(a, -1))

        def madd(a, s=1):
            x, y, p = self.get(a[1]), self.get(a[2]), self.get(a[3])
            self.is_divisor(p)
            for v in (x, y):
                if v.hi >= self.M:
                    raise Finding("unreduced", "operand of a modular addition is not below the divisor", self.eng.where())
            self.put(a[0], Lin(self.form([(x.f, 1), (y.f, s)]), 0, self.M - 1))
        h("uint256_mod_add", madd)
        h("uint256_mod_sub", lambda a: madd(a, -1))
        h("mont256_mul", self.mul)

    def at(self, st, fn, a):
        self.st = st
        return fn(a)

    def zero_diff(self, x, y):
        if x.lo == x.hi == y.lo:
            return True
        if x.hi < y.lo or x.lo > y.lo:
            return False
        return self.decide("equal")

    def mul(self, a):
        p = self.eng.load(self.st, a[0], self.ptrty)
        self.is_divisor(self.get(p))
        x, y = self.get(a[2]), self.get(a[3])
        if x.lo == x.hi:
            x, y = y, x
        if y.lo != y.hi:
            raise AnalysisError("product of two unknowns")
        for v in (x, y):
            if v.hi >= self.M:
                raise Finding("unreduced", "operand of a modular product is not below the divisor", self.eng.where())
        self.put(a[1], Lin(self.form([(x.f, y.lo * pow(TOP, -1, self.M) % self.M)]), 0, self.M - 1))


def reduce_bytes(m, back, name, M, n, ctx=None):
    """uint256_mod of n unknown bytes by M; with ctx: mont256_from_bytes_ex"""
    from .fe import PTR
    fn = "mont256_from_bytes_ex" if ctx else "uint256_mod"
    key = "%s %s of %d bytes modulo the %s" % (back, fn, n, name)
    last = [None]

    def once(script):
        w = W(m, back, M, script)
        last[0] = w
        w.ptrty = PTR(m)
        f = m.fn(NSP[back] + fn)
        toks = [Tok(("d", i), 1) for i in range(n)]
        e, st = w.eng, w.st
        src = Ptr(e.new_obj(st, "data", n), 0)
        if n:
            e.store_cells(st, src, [parts(t, 1)[0] for t in toks])
        out = Ptr(e.new_obj(st, "out", 32), 0)
        div = Ptr(e.new_obj(st, "divisor", 32), 0)
        e.store_cells(st, div, list(M.to_bytes(32, "little")))
        try:
            st, _ = e.call1(st, f, [e.global_ptr(st, ctx, 0), out, src, n] if ctx else [out, src, n, div])
            w.st = st
            v = w.get(out)
        except Finding as x:
            return w.taken, "%s: %s at %s" % (x.kind, x.msg, x.where)
        want = w.form([({t.t: pow(256, n - 1 - i, M)}, TOP % M if ctx else 1) for i, t in enumerate(toks)])
        if v.hi >= M:
            return w.taken, "the result is not below the modulus"
        d = w.form([(v.f, 1), (want, -1)])
        for z in reversed(w.zeros):
            b = max((b for b, c in z.items() if b is not None and math.gcd(c, M) == 1), default=None)
            if d and b in d:
                d = w.form([(d, 1), (z, -d[b] * pow(z[b], -1, M))])
        if d:
            return w.taken, "the result is not congruent to the number (path %s)" % w.taken
        return w.taken, None
    out = cases(once, 3000)
    bad = [e for _, e in out if e]
    st = stats(last[0].eng)
    st["paths"] = len(out)
    return Result(key, not bad, real_where(last[0].eng, None), bad[0] if bad else "", st)
