"""Integer-polynomial domain: every machine word is an exact integer polynomial over input words and
named high parts (floor quotients); carries and comparisons are sign literals over whole carry chains.
Obligations are discharged by polynomial identity, divisibility of coefficients and interval reasoning
after a finite case distinction on the sign literals.  No solver."""
import re
from fractions import Fraction
from math import gcd
from .ir import AnalysisError
from .engine import Domain, Finding, UNDEF, Part, Sel, Ptr, FnPtr

ATOMS = []      # (kind, lo, hi, data)
MEMO = {}
EXP = {}        # atom -> expansion
IMPL = {}       # boolean atom -> booleans it implies to be 1
LIMB = [32]
EXTRA_FITS = set()


def reset(limb=32):
    """forget everything (every obligation starts from the same state)"""
    del ATOMS[:]
    MEMO.clear()
    MASKED.clear()
    EXP.clear()
    IMPL.clear()
    HALF.clear()
    CARRY.clear()
    EXTRA_FITS.clear()
    LIMB[0] = limb


def new_atom(kind, lo, hi, data):
    ATOMS.append((kind, lo, hi, data))
    return len(ATOMS) - 1


def isbool(a):
    return ATOMS[a][0] in ("neg", "eq", "bit") or (ATOMS[a][1] == 0 and ATOMS[a][2] == 1)


# ----------------------------------------------------------------- polynomials: {monomial: coef}
def padd(a, b, k=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    r = sorted(m1 + m2)
    out = []
    for x in r:
        if out and out[-1] == x and isbool(x):
            continue
        out.append(x)
    return tuple(out)


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def pconst(k):
    return {(): k} if k else {}


def patom(a, c=1):
    return {(a,): c}


def key(p):
    return frozenset(p.items())


def mono_range(m):
    lo = hi = 1
    i = 0
    while i < len(m):
        a = m[i]
        n = 1
        while i + n < len(m) and m[i + n] == a:
            n += 1
        _, l, h, _ = ATOMS[a]
        if n % 2 == 0 and l < 0:
            c = [0, max(abs(l), abs(h)) ** n]
        else:
            c = [l ** n, h ** n]
        v = (lo * c[0], lo * c[1], hi * c[0], hi * c[1])
        lo, hi = min(v), max(v)
        i += n
    return lo, hi


def prange(p):
    lo = hi = 0
    for m, c in p.items():
        l, h = mono_range(m)
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def expand_atom(a):
    r = EXP.get(a)
    if r is None:
        k, _, _, d = ATOMS[a]
        if k == "W":
            v, kk, high = d
            r = padd(expand(v), expand(high), -(1 << kk))
        elif k == "X":
            v, kk = d
            e = expand(v)
            assert all(c % (1 << kk) == 0 for c in e.values())
            r = {m: c >> kk for m, c in e.items()}
        elif k == "rem":
            n, dv, q = d
            r = padd(expand(n), pmul(patom(q), expand(dv)), -1)
        else:
            r = patom(a)
        EXP[a] = r
    return r


def expand(p):
    r = {}
    for m, c in p.items():
        t = {(): c}
        for a in m:
            t = pmul(t, expand_atom(a))
        for mm, cc in t.items():
            v = r.get(mm, 0) + cc
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return r


class IntV:
    __slots__ = ("p", "lo", "hi", "_k")

    def __init__(self, p, lo=None, hi=None):
        self.p = p
        l, h = prange(p)
        self.lo = l if lo is None else max(l, lo)
        self.hi = h if hi is None else min(h, hi)
        self._k = None

    def k(self):
        if self._k is None:
            self._k = key(self.p)
        return self._k

    def __eq__(self, o):
        return isinstance(o, IntV) and self.k() == o.k()

    def __hash__(self):
        return hash(self.k())

    def __repr__(self):
        return "Int(%s)" % show(self.p)


class Ite:
    """decision tree with constant leaves"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Ite) and self.c == o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return "Ite(%r,%r,%r)" % (self.c, self.a, self.b)


class ZT:
    """a word that is zero exactly when all the listed differences are zero"""
    __slots__ = ("ps",)

    def __init__(self, ps):
        self.ps = tuple(ps)

    def __eq__(self, o):
        return isinstance(o, ZT) and set(map(key, self.ps)) == set(map(key, o.ps))

    def __hash__(self):
        return hash(frozenset(map(key, self.ps)))


def show(p, n=6):
    s = []
    for m, c in list(p.items())[:n]:
        s.append("%s%s" % (c if abs(c) < 10 ** 6 else hex(c), "".join("*" + aname(a) for a in m)))
    return " + ".join(s) + (" + ..." if len(p) > n else "") if p else "0"


def aname(a):
    k, _, _, d = ATOMS[a]
    return str(d) if k == "in" else "%s%d" % (k, a)


def const(v):
    return v if type(v) is int else (v.p[()] if len(v.p) == 1 and () in v.p else (0 if not v.p else None)) if isinstance(v, IntV) else None


def mkv(p, lo=None, hi=None):
    if not p:
        return 0
    if len(p) == 1 and () in p and p[()] >= 0:
        return p[()]
    return IntV(p, lo, hi)


def P(v):
    if type(v) is int:
        return pconst(v)
    if isinstance(v, IntV):
        return v.p
    if isinstance(v, Ite):
        return padd(P(v.b), pmul(P(v.c), padd(P(v.a), P(v.b), -1)))
    raise AnalysisError("not an integer value: %r" % (v,))


def R(v):
    if type(v) is int:
        return v, v
    if isinstance(v, IntV):
        return v.lo, v.hi
    if isinstance(v, Ite):
        a, b = R(v.a), R(v.b)
        return min(a[0], b[0]), max(a[1], b[1])
    raise AnalysisError("not an integer value: %r" % (v,))


def inp_word(name, w):
    k = ("in", name, w)
    if k not in MEMO:
        MEMO[k] = new_atom("in", 0, (1 << w) - 1, name)
    return IntV(patom(MEMO[k]))


# ----------------------------------------------------------------- sign literals
def flatten(p):
    """sign of p, with a trailing carry of a lower part replaced by that part: sign(X + floor(u / 2^j)) = sign(2^j X + u)"""
    for _ in range(200):
        cand = None
        for m, c in p.items():
            if len(m) == 1 and (c == 1 or c == -1):
                a = m[0]
                k = ATOMS[a][0]
                if k in ("neg", "Q", "X") and (cand is None or a > cand[0]):
                    cand = (a, c, k)
        if cand is None:
            return p
        a, c, k = cand
        x = padd(p, {(a,): c}, -1)
        d = ATOMS[a][3]
        if k == "neg":
            u = d
            lo, hi = prange(u)
            j = max((-lo - 1).bit_length() if lo < 0 else 0, hi.bit_length() if hi > 0 else 0)
            j = (j + LIMB[0] - 1) // LIMB[0] * LIMB[0]
            if c == 1:     # X + b = X + 1 - (1 - b)
                x = padd(x, pconst(1))
                u = padd(pconst(-1), u, -1)
        else:
            u, j = d[0], d[1]
            if c == -1:
                u = padd(pconst((1 << j) - 1), u, -1)
        p = padd(pscale(x, 1 << j), u)
    return p


def norm_sign(p):
    """divide by the gcd of the non-constant coefficients"""
    g = 0
    for m, c in p.items():
        if m:
            g = gcd(g, c)
    if g > 1:
        k = p.get((), 0)
        p = {m: c // g for m, c in p.items() if m}
        if k // g:
            p[()] = k // g
    return p


def lead(p):
    return max((m for m in p if m), key=lambda m: (len(m), m))


def neg(p, lo=None, hi=None):
    """polynomial (0/1) of [p < 0]"""
    l, h = prange(p)
    if lo is not None:
        l = max(l, lo)
    if hi is not None:
        h = min(h, hi)
    if h < 0:
        return pconst(1)
    if l >= 0:
        return {}
    q = norm_sign(flatten(p))
    l, h = prange(q)
    if h < 0:
        return pconst(1)
    if l >= 0:
        return {}
    # [2b < 1] for a single 0/1 atom
    ms = [m for m in q if m]
    if len(ms) == 1 and len(ms[0]) == 1 and isbool(ms[0][0]):
        k = q.get((), 0)
        c = q[ms[0]]
        return {} if k >= 0 and k + c >= 0 else pconst(1) if k < 0 and k + c < 0 else \
            patom(ms[0][0]) if k >= 0 else padd(pconst(1), patom(ms[0][0]), -1)
    pol = True
    if q[lead(q)] < 0:
        q = padd(pconst(-1), q, -1)
        pol = False
    k = ("neg", key(q))
    a = MEMO.get(k)
    if a is None:
        a = MEMO[k] = new_atom("neg", 0, 1, q)
    return patom(a) if pol else padd(pconst(1), patom(a), -1)


def eq0(p, lo=None, hi=None):
    """polynomial (0/1) of [p == 0]"""
    l, h = prange(p)
    if lo is not None:
        l = max(l, lo)
    if hi is not None:
        h = min(h, hi)
    if l > 0 or h < 0:
        return {}
    if l == h == 0 or not p:
        return pconst(1)
    g = 0
    for m, c in p.items():
        if m:
            g = gcd(g, c)
    if p.get((), 0) % g:
        return {}
    p = {m: c // g for m, c in p.items()}
    ms = [m for m in p if m]
    if len(ms) == 1 and len(ms[0]) == 1 and isbool(ms[0][0]):
        k, c = p.get((), 0), p[ms[0]]
        return padd(pconst(1), patom(ms[0][0]), -1) if k == 0 else patom(ms[0][0]) if k + c == 0 else {}
    if p[lead(p)] < 0:
        p = pscale(p, -1)
    k = ("eq", key(p))
    a = MEMO.get(k)
    if a is None:
        a = MEMO[k] = new_atom("eq", 0, 1, p)
    return patom(a)


# ----------------------------------------------------------------- splitting a value at bit k
def split(v, k):
    """(v mod 2^k, floor(v / 2^k)) of an integer value"""
    if type(v) is int:
        return v & ((1 << k) - 1), v >> k
    if isinstance(v, Ite):
        v = IntV(P(v), *R(v))
    M = 1 << k
    if v.lo >= 0 and v.hi < M:
        return v, 0
    if k == 0:
        return 0, v
    mk = ("split", v.k(), k)
    r = MEMO.get(mk)
    if r is None:
        r = MEMO[mk] = split1(v, k)
    return r


def split1(v, k):
    M = 1 << k
    p = v.p
    c = const(v)
    if c is not None:
        return c & (M - 1), c >> k
    # common power of two
    g = 0
    for x in p.values():
        g = gcd(g, x)
    j = min((g & -g).bit_length() - 1, k)
    if j:
        lo, hi = split(mkv({m: x >> j for m, x in p.items()}, v.lo >> j, v.hi >> j), k - j)
        return mul_const(lo, 1 << j), hi
    # terms divisible by 2^k
    p2 = {m: x for m, x in p.items() if x % M == 0}
    if p2:
        p1 = {m: x for m, x in p.items() if x % M}
        l1, h1 = prange(p1)
        if (v.hi >> k) - (v.lo >> k) <= 1 < (h1 >> k) - (l1 >> k):
            p2 = None
    if p2:
        lo, hi = split(mkv(p1) if p1 else 0, k)
        hp = padd(P(hi), {m: x >> k for m, x in p2.items()})
        return lo, mkv(hp, v.lo >> k, v.hi >> k)
    if p.get((), 0) >= M or p.get((), 0) <= -M:
        kk = p[()] >> k
        p1 = padd(p, pconst(-(kk << k)))
        lo, hi = split(mkv(p1, v.lo - (kk << k), v.hi - (kk << k)), k)
        return lo, mkv(padd(P(hi), pconst(kk)), v.lo >> k, v.hi >> k)
    hl, hh = v.lo >> k, v.hi >> k
    if hl != hh and TIGHT[0] and hh - hl == 1:
        # the quotients in p telescope with the words they were carried out of
        hh = min(hh, upper(p, 12, 40) >> k)
    if hl == hh:
        return mkv(padd(p, pconst(-(hl << k))), 0, M - 1), mkv(pconst(hl)) if hl >= 0 else IntV(pconst(hl))
    e = expand(p)
    if all(x % M == 0 for m, x in e.items() if m):
        low = e.get((), 0) & (M - 1)
        q = padd(p, pconst(-low))
        a = new_atom("X", (v.lo - low) >> k, (v.hi - low) >> k, (q, k))
        return low, IntV(patom(a))
    if k == 1 and len(p) == 1 and v.lo >= 0:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and ATOMS[m[0]][0] == "in":
            # an input is twice its upper part plus its lowest bit
            n = ATOMS[m[0]]
            b = new_atom("bit", 0, 1, "%s.0" % n[3])
            q = new_atom("in", 0, n[2] >> 1, "%s/2" % n[3])
            EXP[m[0]] = padd(patom(q, 2), patom(b))
            return IntV(patom(b), 0, 1), IntV(patom(q))
    if k == 1:
        # parity of the reduced polynomial
        e2 = {m: 1 for m, x in e.items() if x & 1}
        if () in e2 and len(e2) > 1:
            del e2[()]
            b, _ = split(IntV(e2), 1)
            low = mkv(padd(pconst(1), P(b), -1), 0, 1)
            if not known_bit(b):
                return plain_bit(p, v, k)
            a = new_atom("Q", hl, hh, (p, k))
            HALF[a] = low
            return low, IntV(patom(a))
        if key(e2) != key(p):
            b, _ = split(IntV(e2), 1)
            if not known_bit(b):
                return plain_bit(p, v, k)
            a = new_atom("Q", hl, hh, (p, k))
            HALF[a] = b
            return b, IntV(patom(a))
    if hh - hl == 1:
        b = padd(pconst(1), neg(padd(p, pconst(-(hh << k)))), -1)
        high = padd(pconst(hl), b)
        sb = single(b)
        if sb and ATOMS[sb[0]][0] == "neg":
            # b = floor(p / 2^k) - hl
            CARRY.setdefault(sb[0], (p, k, hl, sb[1]))
        # carries this carry depends on
        if len(b) <= 2:
            x = [m[0] for m in b if m]
            for m, cf in p.items():
                if len(m) == 1 and isbool(m[0]) and x and ATOMS[x[0]][0] == "neg":
                    q = {mm: cc for mm, cc in p.items() if mm != m}
                    if hl == 0 and prange(q)[1] + min(cf, 0) < (hh << k):
                        IMPL.setdefault((x[0], b[(x[0],)]), set()).add((m[0], 1 if cf > 0 else 0))
        high = mkv(high) if hl >= 0 else IntV(high, hl, hh)
    else:
        fl = None
        # floor((X + floor(u/2^j)) / 2^k) with a named quotient: one quotient of the whole
        for m, cf in p.items():
            if cf == 1 and len(m) == 1 and ATOMS[m[0]][0] == "Q":
                u, j = ATOMS[m[0]][3]
                fl = split(mkv(padd(pscale(padd(p, {m: 1}, -1), 1 << j), u), v.lo << j, (v.hi << j) + (1 << j) - 1), j + k)[1]
                break
        if fl is not None and len(p) == 1:
            high = fl
        else:
            a = new_atom("Q", hl, hh, (p, k))
            high = IntV(patom(a))
    if len(p) == 1 and isinstance(high, IntV) and k > 1 and any(ATOMS[a][0] == "Q" for m in p for a in m):
        # low part of a quotient: keep the telescoping form
        return mkv(padd(p, pscale(P(high), M), -1), 0, M - 1), high
    a = new_atom("W" if k > 1 else "W", 0, M - 1, (p, k, P(high)))
    return IntV(patom(a)), high


def known_bit(b):
    return type(b) is int or all(ATOMS[a][0] != "W" for m in b.p for a in m)


def plain_bit(p, v, k):
    a = new_atom("Q", v.lo >> k, v.hi >> k, (p, k))
    return IntV(patom(new_atom("W", 0, (1 << k) - 1, (p, k, patom(a))))), IntV(patom(a))


HALF = {}
CARRY = {}
TIGHT = [False]


def mul_const(v, k):
    if type(v) is int:
        return v * k
    return mkv(pscale(v.p, k), v.lo * k, v.hi * k)


def wrap(p, w, lo=None, hi=None):
    return split(mkv(p, lo, hi) if not (len(p) == 1 and () in p) else p[()], w)[0]


def low_bits(v, k):
    return split(v, k)[0]


def shr(v, k):
    return split(v, k)[1]


def byte(v, i):
    """byte i of a value, telescoping"""
    a = shr(v, 8 * i) if i else v
    return low_bits(a, 8)


def byte_atom(v, i):
    """byte i of a value as an atom of its own"""
    b = byte(v, i)
    if type(b) is int or len(b.p) == 1 and next(iter(b.p.values())) == 1 and b.lo >= 0 and b.hi < 256:
        return b
    k = ("byte", v.k() if isinstance(v, IntV) else key(P(v)), i)
    if k not in MEMO:
        MEMO[k] = new_atom("W", 0, 255, (b.p, 8, {}))
    return IntV(patom(MEMO[k]))


def value(words, bits):
    """polynomial of a little-endian limb array"""
    r = {}
    for i, x in enumerate(words):
        r = padd(r, P(x), 1 << (bits * i))
    return r


# ----------------------------------------------------------------- the domain
def leafmap(v, f):
    if isinstance(v, Ite):
        return mk_ite(v.c, leafmap(v.a, f), leafmap(v.b, f))
    return f(v)


def bnotv(c):
    return 1 - c if type(c) is int else mkv(padd(pconst(1), P(c), -1), 0, 1)


def single(p):
    """(atom, positive) if p is an atom or its complement"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            return m[0], True
    if len(p) == 2 and p.get(()) == 1:
        m = next(m for m in p if m)
        if p[m] == -1 and len(m) == 1:
            return m[0], False
    return None


def signlit(p):
    """q with p = [q < 0], if p is a sign literal"""
    s = single(p)
    if s and ATOMS[s[0]][0] == "neg":
        d = ATOMS[s[0]][3]
        return d if s[1] else padd(pconst(-1), d, -1)
    return None


def span(p):
    lo, hi = prange(p)
    j = max((-lo).bit_length(), hi.bit_length())
    return (j + LIMB[0] - 1) // LIMB[0] * LIMB[0]


def bool_ite(c, a, b):
    """c ? a : b over 0/1 values; recognises lexicographic comparison of limb sequences"""
    pa, pb = P(a), P(b)
    pc = P(c)
    if key(pa) == key(pb):
        return a
    if pa == {(): 1} and not pb:
        return c
    if not pa and pb == {(): 1}:
        return bnotv(c)
    return mkv(padd(pb, pmul(pc, padd(pa, pb, -1))), 0, 1)


def lex(c, a, y):
    """c ? a : y with a in {0,1} and y = (d ? 1-a : x): x decides only when the high parts are equal"""
    g = signlit(P(c))
    if g is None:
        return None
    if not isinstance(y, Ite2):
        # the range leaves only equality when c is false
        if a not in (0, 1) or prange(g)[1] > 0:
            return None
        y = Ite2(0, 1 - a, y)
        l = pscale(g, -1)
    else:
        l = signlit(P(y.c))
        if l is None or y.a != 1 - a:
            return None
    # c = [g<0], d = [l<0]; equality of the high parts when neither: g = -l  (strict comparisons of the same difference)
    if padd(g, l):
        return None
    x = y.b
    if type(x) is int:
        # a == 1: result = [g<0] or (g==0 and x)
        r = (lambda: neg(g)) if (a == 1) == (x == 0) else None
        if a == 1:
            return mkv(neg(g), 0, 1) if x == 0 else mkv(neg(padd(g, pconst(-1))), 0, 1)
        return mkv(neg(l), 0, 1) if x == 1 and False else (mkv(neg(l), 0, 1) if x == 0 else mkv(neg(padd(l, pconst(-1))), 0, 1))
    s = signlit(P(x))
    if s is None:
        return None
    j = max(span(s), LIMB[0])
    # x = [s < 0]; result = [(D, s) < 0] lexicographically with D = g when a == 1 else l
    D = g if a == 1 else l
    return mkv(neg(padd(pscale(D, 1 << j), s)), 0, 1)


def lexeq(c, y):
    """c ? 0 : (d ? 0 : x) : equality of the high parts and x"""
    if not isinstance(y, Ite2) or y.a != 0:
        return None
    g, l = signlit(P(c)), signlit(P(y.c))
    if g is None or l is None or padd(g, l):
        return None
    x = y.b
    if type(x) is int:
        return mkv(eq0(g), 0, 1) if x else 0
    s = single(P(x))
    if s and s[1] and ATOMS[s[0]][0] == "eq":
        e = ATOMS[s[0]][3]
        j = max(span(e), LIMB[0])
        r1 = eq0(padd(pscale(g, 1 << j), e))
        r2 = eq0(padd(pscale(g, 1 << j), e, -1))
        # the sign of e relative to g is irrelevant for equality; prefer the one seen first
        return mkv(min((r1, r2), key=lambda r: min(m for m in r if m)), 0, 1)
    return None


class Ite2:
    """boolean decision kept open for the lexicographic rules"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def mk_ite(c, a, b):
    if type(c) is int:
        return a if c else b
    if a == b:
        return a
    return Ite(c, a, b)


def bool_tree(t):
    """Ite tree with 0/1 leaves (or boolean values) -> boolean value, folding lexicographic comparisons"""
    if not isinstance(t, Ite):
        return t
    if isinstance(t.a, Ite) and not isinstance(t.b, Ite):
        t = Ite(bnotv(t.c), t.b, t.a)
    b = t.b
    if isinstance(b, Ite) and isinstance(b.a, Ite) and not isinstance(b.b, Ite):
        b = Ite(bnotv(b.c), b.b, b.a)
    if isinstance(b, Ite):
        inner = bool_tree(b.b)
        ia = bool_tree(b.a)
        y = Ite2(b.c, ia, inner)
        a = bool_tree(t.a)
        if a == 0 and ia == 0:
            r = lexeq(t.c, y)
            if r is not None:
                return r
        if type(a) is int and type(ia) is int:
            r = lex(t.c, a, y)
            if r is not None:
                return r
        return bool_or_lex(t.c, a, bool_tree(b))
    return bool_or_lex(t.c, bool_tree(t.a), bool_tree(b))


def bool_or_lex(c, a, b):
    """c ? a : b where one side of c leaves only equality of the compared limbs"""
    if type(c) is not int:
        if type(b) is int and type(a) is not int:
            g = signlit(P(c))
            if g is not None and prange(g)[0] >= -1:
                c, a, b = bnotv(c), b, a
        if type(a) is int and type(b) is not int:
            r = lex(c, a, b)
            if r is not None:
                return r
    return bool_ite(c, a, b)


def implied_zero(a, val):
    """assignments forced by boolean atom a having value val=0"""
    out = {a: val}
    ch = True
    while ch:
        ch = False
        for (x, pol), s in IMPL.items():
            # x's literal true implies each (y,1): y=0 forces the literal false
            for y, yv in s:
                if out.get(y) == 1 - yv:
                    xv = 0 if pol == 1 else 1
                    if x not in out:
                        out[x] = xv
                        ch = True
    return out


def subst(p, asg):
    if not asg:
        return p
    r = {}
    for m, c in p.items():
        mm = []
        k = c
        for a in m:
            if a in asg:
                k *= asg[a]
                if not k:
                    break
            else:
                mm.append(a)
        if k:
            mm = tuple(mm)
            v = r.get(mm, 0) + k
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return r


def same(p, q):
    return p == q or key(p) == key(q)


def deep(p, asg):
    """p with 0/1 atoms replaced, also where other atoms are defined by them"""
    asg = dict(asg)
    return deep_(p, asg, min(asg), tuple(sorted(asg.items())))


def deep_(p, asg, lo, ak):
    if all(a < lo for m in p for a in m):
        return p
    r = {}
    for m, c in p.items():
        t = {(): c}
        for a in m:
            t = pmul(t, patom(a) if a < lo else deep_atom(a, asg, lo, ak))
        r = padd(r, t)
    return r


def deep_atom(a, asg, lo, ak):
    if a in asg:
        return pconst(asg[a])
    k = ("deep", a, ak)
    if k in MEMO:
        return MEMO[k]
    r = patom(a)
    kind, _, _, d = ATOMS[a]
    if kind == "neg":
        q = deep_(d, asg, lo, ak)
        if q != d:
            r = neg(q)
    elif kind in ("Q", "X", "W") and type(d) is tuple and d[1]:
        q = deep_(d[0], asg, lo, ak)
        if q != d[0]:
            v = split(mkv(q), d[1])
            r = P(v[0 if kind == "W" else 1])
    MEMO[k] = r
    return r


def div_facts():
    """remainder < divisor, for every division instruction met"""
    out = []
    for a, (k, _, _, d) in enumerate(ATOMS):
        if k == "rem":
            out.append(padd(padd(d[1], patom(a), -1), pconst(-1)))
            out.append(patom(a))
    return out


def restrict(v, asg):
    if isinstance(v, Ite):
        p = subst(P(v.c), asg)
        a, b = restrict(v.a, asg), restrict(v.b, asg)
        if not p or len(p) == 1 and () in p:
            return a if p else b
        return mk_ite(v.c if p is v.c.p else mkv(p, 0, 1), a, b)
    if isinstance(v, IntV) and any(a in asg for m in v.p for a in m):
        p = subst(v.p, asg)
        return p.get((), 0) if not p or len(p) == 1 and () in p and p[()] >= 0 else IntV(p, v.lo, v.hi)
    return v


MASKED = {}      # value of x & mask -> (condition, x)


class IntDomain(Domain):
    own_bswap = True

    def __init__(self, limb=32):
        LIMB[0] = limb
        self.facts = []        # polynomials known to be >= 0
        self.prover_calls = 0

    def owns(self, c):
        return isinstance(c, (IntV, Ite))

    def conv(self, v, w=None):
        if isinstance(v, ZT):
            self.fail("arithmetic on a zero test")
        return v

    # --- bytes
    def join(self, cells):
        n = len(cells)
        r = {}
        for i, c in enumerate(cells):
            if c is UNDEF or type(c) is Sel:
                raise Finding("undef", "arithmetic on an uninitialised byte", self.eng.where())
            if type(c) is Part:
                if isinstance(c.v, (Ptr, FnPtr, Sel)):
                    self.fail("bytes of a pointer")
                b = byte(c.v, c.i)
            else:
                b = c
            r = padd(r, P(b), 1 << (8 * i))
        return self.simp(mkv(r, 0, (1 << (8 * n)) - 1))

    def simp(self, v):
        return v

    def binop(self, op, w, a, b):
        M = (1 << w) - 1
        if isinstance(a, ZT) or isinstance(b, ZT):
            if op == "or" and (isinstance(a, (ZT, IntV)) and isinstance(b, (ZT, IntV))):
                pa = a.ps if isinstance(a, ZT) else (a.p,)
                pb = b.ps if isinstance(b, ZT) else (b.p,)
                return ZT(pa + pb)
            if op == "or" and (a == 0 or b == 0):
                return b if a == 0 else a
            self.fail(op + " on a zero test")
        if isinstance(a, Ite) and type(b) is int:
            return leafmap(a, lambda x: self.eng.binop(op, w, x, b))
        if isinstance(b, Ite) and type(a) is int:
            return leafmap(b, lambda x: self.eng.binop(op, w, a, x))
        if isinstance(a, Ite) and isinstance(b, Ite) and a.c == b.c:
            return mk_ite(a.c, self.eng.binop(op, w, a.a, b.a), self.eng.binop(op, w, a.b, b.b))
        if isinstance(a, Ite):
            a = IntV(P(a), *R(a))
        if isinstance(b, Ite):
            b = IntV(P(b), *R(b))
        la, ha = R(a)
        lb, hb = R(b)
        if op == "add":
            return self.fit(padd(P(a), P(b)), la + lb, ha + hb, w)
        if op == "sub":
            return self.fit(padd(P(a), P(b), -1), la - hb, ha - lb, w)
        if op == "mul":
            if type(a) is int and type(b) is not int:
                a, b = b, a
                la, ha, lb, hb = lb, hb, la, ha
            if type(b) is int and b >> (w - 1) and b > (1 << w) - (1 << 16):
                # multiplication by a small negative constant
                n = (1 << w) - b
                return self.fit(pscale(P(a), -n), -ha * n, -la * n, w)
            c = [x * y for x in (la, ha) for y in (lb, hb)]
            return self.fit(pmul(P(a), P(b)), min(c), max(c), w)
        if op == "shl" and type(b) is int:
            return self.fit(pscale(P(a), 1 << b), la << b, ha << b, w)
        if op == "lshr" and type(b) is int:
            return shr(a, b)
        if op == "ashr" and type(b) is int:
            s = self.sext(a, w, w + b + 1)
            return low_bits(shr(s, b), w)
        if op == "and":
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                return self.mask(a, b, w)
            if R(a) in ((0, 1),) and R(b)[0] >= 0 and R(b)[1] <= 1:
                return mkv(pmul(P(a), P(b)), 0, 1)
            for x, y in ((a, b), (b, a)):
                c = self.as_mask(y, w)
                if c is not None:
                    r = self.select(c, x, 0)
                    if isinstance(r, IntV):
                        MASKED[r.k()] = (c, x)
                    return r
        if op == "xor":
            if type(a) is int:
                a, b = b, a
            if type(b) is int and b == M:
                return mkv(padd(pconst(M), P(a), -1), 0, M)
            if ha <= 1 and hb <= 1:
                pa, pb = P(a), P(b)
                return mkv(padd(padd(pa, pb), pmul(pa, pb), -2), 0, 1)
            return ZT([padd(P(a), P(b), -1)])
        if op == "or":
            if type(a) is int:
                a, b = b, a
            if ha <= 1 and hb <= 1:
                pa, pb = P(a), P(b)
                return mkv(padd(padd(pa, pb), pmul(pa, pb), -1), 0, 1)
            for x, y in ((a, b), (b, a)):
                k = min(((c & -c).bit_length() - 1) for c in P(x).values())
                ly, hy = R(y)
                if hy < (1 << k) and ly >= 0:
                    return self.fit(padd(P(x), P(y)), la + lb, ha + hb, w)
            ma, mb = (MASKED.get(v.k()) if isinstance(v, IntV) else None for v in (a, b))
            if ma and mb and same(P(ma[0]), padd(pconst(1), P(mb[0]), -1)):
                # (x & mask) | (y & ~mask)
                return self.select(ma[0], ma[1], mb[1])
            return ZT([P(a), P(b)])
        if op in ("udiv", "urem"):
            return self.divide(op, a, b)
        self.fail("%s i%d" % (op, w))

    def mask(self, a, b, w):
        r = {}
        lo = 0
        k = 0
        # b as a union of runs of ones
        while b >> k:
            if not (b >> k) & 1:
                k += 1
                continue
            j = k
            while (b >> j) & 1:
                j += 1
            part = low_bits(shr(a, k) if k else a, j - k)
            r = padd(r, P(part), 1 << k)
            k = j
        return mkv(r, 0, b)

    def as_mask(self, v, w):
        """the 0/1 value whose negative modulo 2^w this is, if any"""
        if not isinstance(v, IntV):
            return None
        M = (1 << w) - 1
        p, inv = v.p, False
        if p.get(()) == M:
            p, inv = padd(pconst(M), p, -1), True
        q = None
        if p and all(c % M == 0 for c in p.values()):
            q = {m: c // M for m, c in p.items()}
        elif len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and ATOMS[m[0]][0] == "W" and ATOMS[m[0]][3][1] == w:
                d = ATOMS[m[0]][3][0]
                q = pscale(d.p if isinstance(d, IntV) else d, -1)
        if q is None:
            return None
        lo, hi = prange(q)
        if lo < 0 or hi > 1:
            at = sorted({a for m in q for a in m})
            if len(at) > 6 or not all(isbool(a) for a in at):
                return None
            for k in range(1 << len(at)):
                if subst(q, {a: (k >> i) & 1 for i, a in enumerate(at)}).get((), 0) not in (0, 1):
                    return None
        c = mkv(q, 0, 1)
        return bnotv(c) if inv else c

    def divide(self, op, a, b):
        lb, hb = R(b)
        if lb <= 0 and hb >= 0 and (type(b) is int or not getattr(self, "nonzero", None) or key(P(b)) not in self.nonzero):
            raise Finding("div0", "division by a value that may be zero", self.eng.where())
        if type(b) is int and b & (b - 1) == 0:
            lo, hi = split(a, b.bit_length() - 1)
            return hi if op == "udiv" else lo
        k = ("div", key(P(a)), key(P(b)))
        if k not in MEMO:
            la, ha = R(a)
            hi = ha // max(lb, 1)
            # numerator r * 2^k + x with r a remainder by the same divisor and x < 2^k: quotient < 2^k
            for m, c in P(a).items():
                if len(m) == 1 and ATOMS[m[0]][0] == "rem" and key(ATOMS[m[0]][3][1]) == key(P(b)) and c & (c - 1) == 0 and c > 0:
                    rest = prange({mm: cc for mm, cc in P(a).items() if mm != m})
                    if rest[0] >= 0 and rest[1] < c:
                        hi = min(hi, c - 1)
            q = new_atom("dq", 0, hi, (P(a), P(b)))
            r = new_atom("rem", 0, min(hb - 1, ha), (P(a), P(b), q))
            MEMO[k] = (q, r)
        q, r = MEMO[k]
        return IntV(patom(q if op == "udiv" else r))

    def fit(self, p, lo, hi, w):
        v = mkv(p, lo, hi) if p and not (len(p) == 1 and () in p) else p.get((), 0)
        if type(v) is int:
            return v & ((1 << w) - 1)
        if v.lo >= 0 and v.hi < (1 << w):
            return v
        if v.hi >> w or v.lo < 0:
            lo2, hi2 = self.tight(v)
            if (lo2, hi2) != (v.lo, v.hi):
                v = mkv(p, lo2, hi2)
                if type(v) is int:
                    return v
                if v.lo >= 0 and v.hi < (1 << w):
                    return v
        return low_bits(self.unwrap(v, w), w)

    def unwrap(self, v, w):
        """a value congruent modulo 2^w with the smallest obvious range"""
        M = 1 << w
        p = v.p
        for _ in range(8):
            q = {}
            ch = False
            for m, c in p.items():
                c = c % M
                if c >= M // 2:
                    c -= M
                a = m[0] if len(m) == 1 else None
                if a is not None and ATOMS[a][0] == "W" and ATOMS[a][3][1] >= w and abs(c) <= 4:
                    q = padd(q, ATOMS[a][3][0].p if isinstance(ATOMS[a][3][0], IntV) else ATOMS[a][3][0], c)
                    ch = True
                else:
                    q = padd(q, {m: c} if c else {})
            p = q
            if not ch:
                break
        if key(p) == v.k() or not p or len(p) == 1 and () in p:
            return v if p else IntV({}, 0, 0)
        l, h = prange(p)
        return IntV(p) if h - l < v.hi - v.lo else v

    def tight(self, v):
        """range through the definitions of the quotients involved"""
        if not any(ATOMS[a][0] in ("Q", "neg", "X") for m in v.p for a in m):
            return v.lo, v.hi
        hi = upper(expand_bool(v.p))
        lo = -upper(pscale(expand_bool(v.p), -1))
        return max(v.lo, lo), min(v.hi, hi)

    def trunc(self, v, w0, w):
        if isinstance(v, ZT):
            self.fail("trunc of a zero test")
        if isinstance(v, Ite):
            return leafmap(v, lambda x: x & ((1 << w) - 1))
        return low_bits(v, w)

    def zext(self, v, w0, w):
        return v

    def sext(self, v, w0, w):
        if type(v) is int:
            return self.eng.sext(v, w0, w)
        if isinstance(v, Ite):
            return leafmap(v, lambda x: self.eng.sext(x, w0, w))
        lo, hi = R(v)
        h = 1 << (w0 - 1)
        if hi < h:
            return v
        n = padd(pconst(1), self.neg_small(padd(v.p, pconst(-h)), lo - h, hi - h), -1)
        return mkv(padd(v.p, pscale(n, (1 << w) - (1 << w0))), 0, (1 << w) - 1)

    def neg_small(self, p, lo, hi):
        """[p<0]; truth table when p only depends on a few 0/1 atoms"""
        p0 = p
        p = self.few(p)
        at = sorted({a for m in p for a in m})
        if not at:
            return pconst(1) if p.get((), 0) < 0 else {}
        if at and len(at) <= 4 and all(isbool(a) for a in at):
            r = {}
            for k in range(1 << len(at)):
                asg = {a: (k >> i) & 1 for i, a in enumerate(at)}
                if subst(p, asg).get((), 0) < 0:
                    t = pconst(1)
                    for a in at:
                        t = pmul(t, patom(a) if asg[a] else padd(pconst(1), patom(a), -1))
                    r = padd(r, t)
            return r
        return neg(p0, lo, hi)

    def few(self, p):
        """expanded form if it only depends on a few 0/1 atoms"""
        if any(ATOMS[a][0] in ("W", "X") for m in p for a in m):
            e = expand(p)
            if len(e) <= 16 and all(isbool(a) for m in e for a in m):
                return e
        return p

    def signed(self, v, w):
        if type(v) is int:
            return v - (1 << w) if v >> (w - 1) else v
        if isinstance(v, Ite):
            return leafmap(v, lambda x: x - (1 << w) if x >> (w - 1) else x)
        lo, hi = R(v)
        h = 1 << (w - 1)
        if hi < h:
            return v
        n = padd(pconst(1), self.neg_small(padd(P(v), pconst(-h)), lo - h, hi - h), -1)
        return IntV(padd(P(v), pscale(n, -(1 << w))), -h, h - 1)

    def whole(self, v):
        """a multiple of a named word as a word of its own, so that sign literals keep its scale"""
        if type(v) is int or len(v.p) != 1:
            return v
        (m, c), = v.p.items()
        if c <= 1 or len(m) != 1 or ATOMS[m[0]][0] != "W" or v.lo < 0:
            return v
        k = ("whole", m, c)
        if k not in MEMO:
            MEMO[k] = new_atom("W", v.lo, v.hi, (v.p, 0, {}))
        return IntV(patom(MEMO[k]), v.lo, v.hi)

    def icmp(self, pred, w, a, b):
        if isinstance(a, Ite) and type(b) is int:
            return bool_tree(leafmap(a, lambda x: self.eng.icmp(pred, w, x, b)))
        if isinstance(b, Ite) and type(a) is int:
            return bool_tree(leafmap(b, lambda x: self.eng.icmp(pred, w, a, x)))
        if isinstance(a, ZT) or isinstance(b, ZT):
            if isinstance(b, ZT):
                a, b = b, a
            if b == 0 and pred in ("eq", "ne"):
                e = self.all_zero(a.ps)
                return mkv(e, 0, 1) if pred == "eq" else bnotv(mkv(e, 0, 1))
            self.fail("comparison of a zero test")
        if pred in ("eq", "ne"):
            (la, ha), (lb, hb) = R(a), R(b)
            p = padd(P(a), P(b), -1)
            e = self.eq_small(p, la - hb, ha - lb)
            r = mkv(e, 0, 1)
            return r if pred == "eq" else bnotv(r)
        if pred[0] == "s":
            a, b = self.signed(a, w), self.signed(b, w)
        if isinstance(a, Ite):
            a = IntV(P(a), *R(a))
        if isinstance(b, Ite):
            b = IntV(P(b), *R(b))
        o = pred[1:]
        if o in ("gt", "le"):
            a, b = b, a
        a, b = self.whole(a), self.whole(b)
        # a < b
        (la, ha), (lb, hb) = (a, a) if type(a) is int else R(a), (b, b) if type(b) is int else R(b)
        pa = pconst(a) if type(a) is int else P(a)
        pb = pconst(b) if type(b) is int else P(b)
        r = mkv(self.neg_small(padd(pa, pb, -1), la - hb, ha - lb), 0, 1)
        return r if o in ("lt", "gt") else bnotv(r)

    def eq_small(self, p, lo, hi):
        p0 = p
        p = self.few(p)
        if not p or len(p) == 1 and () in p:
            return {} if p else pconst(1)
        at = sorted({a for m in p for a in m})
        if at and len(at) <= 4 and all(isbool(a) for a in at):
            r = {}
            for k in range(1 << len(at)):
                asg = {a: (k >> i) & 1 for i, a in enumerate(at)}
                if subst(p, asg).get((), 0) == 0:
                    t = pconst(1)
                    for a in at:
                        t = pmul(t, patom(a) if asg[a] else padd(pconst(1), patom(a), -1))
                    r = padd(r, t)
            return r
        # nonnegative sum with a zero lower bound that is 0/1 valued
        return eq0(p0, lo, hi)

    def all_zero(self, ps):
        acc = {}
        sh = 0
        for p in ps:
            j = max(span(p), LIMB[0])
            acc = padd(acc, p, 1 << sh)
            sh += j
        return eq0(acc)

    def select(self, c, a, b):
        if isinstance(c, Ite):
            c = bool_tree(c)
            if type(c) is int:
                return a if c else b
        for v in (a, b):
            if isinstance(v, ZT):
                self.fail("join of a zero test")
        s = single(P(c))
        if s and type(a) in (int, IntV) and type(b) in (int, IntV):
            # f(c) on one side and f(0) or f(1) on the other: f(c)
            t, e = (1, 0) if s[1] else (0, 1)
            pa, pb = P(a), P(b)
            if same(deep(pa, implied_zero(s[0], e)), pb):
                return a
            if same(deep(pb, implied_zero(s[0], t)), pa):
                return b
        if s:
            a = restrict(a, {s[0]: 1 if s[1] else 0})
            b = restrict(b, {s[0]: 0 if s[1] else 1})
            if a == b:
                return a
        if (type(a) is int or isinstance(a, Ite)) and (type(b) is int or isinstance(b, Ite)):
            if a in (0, 1) and b in (0, 1) and type(a) is int and type(b) is int:
                return c if a == 1 else bnotv(c)
            return mk_ite(c, a, b)
        pa, pb = P(a), P(b)
        s = single(P(c))
        if s:
            # values that agree anyway on the side where the other one was chosen
            cz = implied_zero(s[0], 0 if s[1] else 1)
            ea, eb = expand(pa), expand(pb)
            if key(subst(ea, cz)) == key(subst(eb, cz)):
                return a
            cz = implied_zero(s[0], 1 if s[1] else 0)
            if key(subst(ea, cz)) == key(subst(eb, cz)):
                return b
        (la, ha), (lb, hb) = R(a), R(b)
        if max(ha, hb) <= 1 and min(la, lb) >= 0:
            return bool_ite(c, a, b)
        return mkv(padd(pb, pmul(P(c), padd(pa, pb, -1))), min(la, lb), max(ha, hb))

    def cond_key(self, c):
        if isinstance(c, Ite):
            c = bool_tree(c)
        p = P(c)
        s = single(p)
        if s:
            return s[0], s[1]
        k1, k2 = key(p), key(padd(pconst(1), p, -1))
        if sorted(k1, key=repr) <= sorted(k2, key=repr):
            return k1, True
        return k2, False

    def cond_not(self, c):
        if isinstance(c, Ite):
            c = bool_tree(c)
        return bnotv(c)

    def cond_value(self, k):
        return IntV(patom(k), 0, 1)

    def cond_paths(self, c):
        if isinstance(c, Ite):
            c = bool_tree(c)
        p = P(c)
        ats = sorted({a for m in p for a in m})
        if len(ats) < 2 or len(ats) > 40:
            return None
        out = []

        def rec(q, path):
            if len(out) > 200:
                return
            ats = sorted({a for m in q for a in m})
            if not ats:
                out.append((tuple(path), q.get((), 0)))
                return
            a = ats[0]
            for v in (1, 0):
                rec(subst(q, {a: v}), path + [(a, bool(v))])
        rec(p, [])
        return out if len(out) <= 200 else None

    def cond_under(self, c, paths):
        if isinstance(c, Ite):
            c = bool_tree(c)
        p = P(c)
        out = {}
        for t in paths:
            v = None
            q = subst(p, {k: 1 if pol else 0 for k, pol in t if type(k) is int})
            if not q or len(q) == 1 and () in q:
                v = q.get((), 0)
            else:
                kc = self.cond_key(c)
                for k, pol in t:
                    if k == kc[0]:
                        v = 1 if pol == kc[1] else 0
            out[t] = v
        return out

    def cond_refine(self, st, c):
        if isinstance(c, Ite):
            c = bool_tree(c)
            if type(c) is int:
                return c
        if getattr(self, "refine", False):
            return self.refine_by_facts(st, c)
        return c

    def literals(self, trace):
        out = []
        for k, pol in trace:
            p = patom(k) if type(k) is int else dict(k)
            out.append((p, pol))
        return out

    def refine_by_facts(self, st, c):
        p = P(c)
        for val in (1, 0):
            # can c be val on any trace?
            ok = False
            for t in st.paths:
                if feasible(self.facts, self.literals(t) + [(p, bool(val))]):
                    ok = True
                    break
            if not ok:
                return 1 - val
        return c

    def gep_index(self, v, w, sc):
        c = const(v)
        if c is not None:
            return c * sc
        self.fail("data-dependent address")

    def memcmp(self, eng, st, a, b, n):
        x = eng.load_bytes(st, a, n)
        y = eng.load_bytes(st, b, n)
        return ZT([padd(P(eng.join_bytes([i])), P(eng.join_bytes([j])), -1) for i, j in zip(x, y)])

    def intrinsic(self, eng, st, name, args, i):
        m = re.match(r"llvm\.bswap\.i(\d+)", name)
        if m:
            w = int(m.group(1))
            r = {}
            for j in range(w // 8):
                r = padd(r, P(byte_atom(args[0], j)), 1 << (w - 8 - 8 * j))
            return mkv(r, 0, (1 << w) - 1)
        m = re.match(r"llvm\.x86\.(addcarry|subborrow)\.(32|64)", name)
        if m:
            w = int(m.group(2))
            c, a, b = args
            if not isinstance(a, Ite) and not isinstance(b, Ite):
                a, b = self.whole(a), self.whole(b)
            cc = self.eng.icmp("ne", 8, c, 0)
            lc, hc = R(cc)
            (la, ha), (lb, hb) = R(a), R(b)
            if m.group(1) == "addcarry":
                p = padd(padd(P(a), P(b)), P(cc))
                lo, hi = la + lb + lc, ha + hb + hc
            else:
                p = padd(padd(P(a), P(b), -1), P(cc), -1)
                lo, hi = la - hb - hc, ha - lb - lc
            v = mkv(p, lo, hi) if not (len(p) == 1 and () in p) else p[()]
            if type(v) is not int and (v.lo < 0 or v.hi >> w):
                lo2, hi2 = self.tight(v)
                v = mkv(p, lo2, hi2)
            low, high = split(v, w)
            if m.group(1) == "subborrow":
                high = -high if type(high) is int else mkv(pscale(high.p, -1), 0, 1)
            return (high, low)
        m = re.match(r"llvm\.(uadd|usub|umul)\.with\.overflow\.i(\d+)", name)
        if m:
            w = int(m.group(2))
            a, b = args
            (la, ha), (lb, hb) = R(a), R(b)
            if m.group(1) == "uadd":
                v = mkv(padd(P(a), P(b)), la + lb, ha + hb)
            elif m.group(1) == "usub":
                v = mkv(padd(P(a), P(b), -1), la - hb, ha - lb)
            else:
                v = mkv(pmul(P(a), P(b)), la * lb, ha * hb)
            low, high = split(v, w)
            return (low, self.eng.icmp("ne", 64, high, 0) if m.group(1) != "usub" else (mkv(pscale(P(high), -1), 0, 1) if type(high) is not int else -high))
        return NotImplemented


# ----------------------------------------------------------------- bounds and case distinction
def expand_bool(p):
    return expand(p)


def _dec(a):
    return ATOMS[a][0] in ("Q", "dq")


def relax(p, steps=400, size=None):
    """yield (poly, slack): p <= poly + slack, eliminating quotients latest first"""
    slack = 0
    yield p, 0
    for _ in range(steps):
        cand = None
        for m in p:
            for a in m:
                if (ATOMS[a][0] == "Q" or a in CARRY) and (cand is None or a > cand):
                    cand = a
        if cand is None or size and len(p) > size:
            return
        if ATOMS[cand][0] == "Q":
            u, k = ATOMS[cand][3]
            u = expand(u)
        else:
            u, k, hl, pos = CARRY[cand]
            u = padd(expand(u), pconst(-(hl << k)))
            if not pos:
                # atom = 1 - floor = floor((2^(k+1) - 1 - u) / 2^k)
                u = padd(pconst((2 << k) - 1), u, -1)
        M = 1 << k
        q = {}
        for m, c in p.items():
            n = m.count(cand)
            if n == 0:
                v = q.get(m, 0) + c
                if v:
                    q[m] = v
                else:
                    q.pop(m, None)
                continue
            if n > 1:
                return
            rest = tuple(a for a in m if a != cand)
            # c * rest * (u - low) / M, low in [0, M-1]
            t = pmul({rest: Fraction(c, M)}, u)
            q = padd(q, t)
            l, h = mono_range(rest)
            hi = max(-c * l * (M - 1), -c * h * (M - 1), 0)
            slack += Fraction(hi, M)
        p = q
        yield p, slack


def upper(p, steps=400, size=None):
    best = None
    for q, s in relax(p, steps, size):
        v = prange(q)[1] + s
        v = v.__floor__()
        if best is None or v < best:
            best = v
    return best


def contradiction(facts, base):
    """some fact (polynomial >= 0), possibly combined with others, cannot hold"""
    base = list(base)
    for idx, f in enumerate(facts):
        for q, s in relax(f):
            if prange(q)[1] + s < 0:
                return True
        if combine(q, s, facts[:idx] + facts[idx + 1:] + base, 3):
            return True
        if q is not f and combine(f, 0, facts[:idx] + facts[idx + 1:] + base, 3):
            return True
    return False


def combine(f, s, others, depth, budget=None):
    """add positive multiples of other facts that cancel the dominating term"""
    if prange(f)[1] + s < 0:
        return True
    if budget is None:
        budget = [300]
        depth = 24
    budget[0] -= 1
    if depth == 0 or budget[0] < 0:
        return False
    # dominating positive contribution
    best = None
    for m, c in f.items():
        if not m:
            continue
        l, h = mono_range(m)
        v = max(c * l, c * h)
        if v > 0 and (best is None or v > best[0]):
            best = (v, m, c)
    if best is None:
        # only the constant keeps f from being negative: bring in facts that bound the remaining terms from the other side
        for m, c in f.items():
            if m:
                l, h = mono_range(m)
                v = abs(c) * max(abs(l), abs(h))
                if best is None or v > best[0]:
                    best = (v, m, c)
    if best is None:
        return False
    _, m, c = best
    for k, g in enumerate(others):
        gc = g.get(m)
        if gc is None or (gc > 0) == (c > 0):
            continue
        lam = Fraction(abs(c), abs(gc))
        if lam.denominator == 1:
            lam = lam.numerator
        if combine(padd(f, g, lam), s, others[:k] + others[k + 1:], depth - 1, budget):
            return True
    return False


def bool_deps(p, seen=None, deep=True):
    """0/1 atoms in the expansion of p and in the definitions of those"""
    seen = set() if seen is None else seen
    todo = [p]
    while todo:
        q = todo.pop()
        for m in expand(q):
            for a in m:
                if a in seen:
                    continue
                k, _, _, d = ATOMS[a]
                if k in ("neg", "eq"):
                    seen.add(a)
                    if deep:
                        todo.append(d)
                elif k == "bit":
                    seen.add(a)
    return seen


class Cases:
    """finite case distinction over sign literals"""

    def __init__(self, base, literals, polys, extra=(), limit=20000, deep=True):
        self.base = [expand(b) for b in base]
        ats = set()
        for p, _ in literals:
            bool_deps(p, ats, deep)
        for p in polys:
            bool_deps(p, ats, deep)
        for p in extra:
            bool_deps(p, ats, deep)
        self.atoms = sorted(ats)
        self.lits = [(expand(p), 1 if v else 0) for p, v in literals]
        self.open = None
        self.given = {single(p)[0] for p, _ in self.lits if single(p)}
        self.leaves = 0
        self.limit = limit

    def run(self, leaf):
        """leaf(assignment, facts) -> bool; True if every feasible leaf succeeds"""
        return self.rec(tuple(self.atoms), {}, [], leaf)

    def rec(self, left, asg, facts, leaf):
        self.leaves += 1
        if self.leaves > self.limit:
            raise AnalysisError("case distinction too large")
        for p, v in self.lits:
            q = subst(p, asg)
            if not q or (len(q) == 1 and () in q):
                if q.get((), 0) != v:
                    return True
        if not left:
            return leaf(asg, facts)
        a = left[0]
        if self.open is not None:
            w = self.open(asg)
            if w is None:
                return True
            a = next((x for x in left if x in self.given and x not in asg), None) or next((x for x in left if x in w), a)
        rest = tuple(x for x in left if x != a)
        kind, _, _, d = ATOMS[a]
        e = subst(expand(d), asg) if kind != "bit" else {}
        forced = None
        for p, v in self.lits:
            s = single(subst(p, asg))
            if s and s[0] == a:
                forced = v if s[1] else 1 - v
        for val in (0, 1):
            if forced is not None and val != forced:
                continue
            na = dict(asg)
            na[a] = val
            if kind == "bit":
                fs = [[]]
            elif kind == "neg":
                fs = [[padd(pconst(-1), e, -1)]] if val else [[e]]
            else:
                fs = [[e, pscale(e, -1)]] if val else [[padd(e, pconst(-1))], [padd(pconst(-1), e, -1)]]
            for nf in fs:
                bad = False
                new = []
                for x in nf:
                    x = subst(x, na)
                    if not x or (len(x) == 1 and () in x):
                        if x.get((), 0) < 0:
                            bad = True
                        continue
                    new.append(x)
                if bad:
                    continue
                if new and contradiction_new(new, facts, [subst(b, na) for b in self.base]):
                    continue
                if not self.rec(rest, na, facts + new, leaf):
                    return False
        return True


def contradiction_new(new, facts, base):
    others = facts + base
    for k, f in enumerate(new):
        rest = new[:k] + new[k + 1:] + others
        last = None
        for q, s in relax(f):
            if prange(q)[1] + s < 0:
                return True
            last = (q, s)
        if combine(f, 0, rest, 3):
            return True
        if last[0] is not f and combine(last[0], last[1], rest, 3):
            return True
    return False


def impossible(f, facts, base):
    """f >= 0 contradicts the facts"""
    return contradiction_new([f], facts, base)


def feasible(base, literals):
    found = []

    def leaf(asg, facts):
        found.append(asg)
        return False
    Cases(base, literals, []).run(leaf)
    return bool(found)


def prove(base, literals, goals, shallow=False):
    """goals: list of ('zero', p) | ('nonneg', p) | ('cong', p, modulus).  Returns None or a description of the failing case."""
    fail = []
    g2 = [(g[0], expand(g[1])) + tuple(g[2:]) for g in goals]
    ps = [g[1] for g in goals]
    if shallow:
        # only the cases the congruence depends on
        ps = [{m: c for m, c in g[1].items() if c % g[2]} for g in g2 if g[0] == "cong"]
        seen = set()
        todo = [g[1] for g in goals]
        while todo:
            for m in todo.pop():
                for a in m:
                    if a not in seen:
                        seen.add(a)
                        if isbool(a) and a not in CARRY:
                            ps.append(patom(a))
                        elif ATOMS[a][0] == "Q":
                            todo.append(ATOMS[a][3][0])
    cs = Cases(base, literals, ps, deep=not shallow)
    if all(g[0] == "zero" for g in g2):
        def undecided(asg):
            """what the goals still depend on; None when they hold already"""
            w = set()
            done = True
            for g in g2:
                p = subst(g[1], asg)
                done = done and not p
                w.update(a for m in p for a in m)
            return None if done else w
        cs.open = undecided

    def leaf(asg, facts):
        b = [subst(x, asg) for x in cs.base]
        for g in g2:
            p = subst(g[1], asg)
            if g[0] == "zero":
                ok = not p or impossible(padd(p, pconst(-1)), facts, b) and impossible(padd(pconst(-1), p, -1), facts, b)
            elif g[0] == "nonneg":
                ok = prange(p)[0] >= 0 or impossible(padd(pconst(-1), p, -1), facts, b)
            else:
                ok = all(c % g[2] == 0 for c in p.values())
                if not ok:
                    # use the equalities of this case
                    for a, v in asg.items():
                        if v and ATOMS[a][0] == "eq":
                            e = subst(expand(ATOMS[a][3]), asg)
                            for m, c in e.items():
                                if m and c in (1, -1) and m in p:
                                    p = padd(p, e, -p[m] * c)
                                    break
                    p = {m: c for m, c in p.items() if c % g[2]}
                    ok = not p
            if not ok and not any(contradiction_new([f], facts[:k] + facts[k + 1:], b) for k, f in enumerate(facts)) and not (
                    shallow and any(contradiction_new([f], facts, b[:k] + b[k + 1:]) for k, f in enumerate(b))):
                fail.append("%s %s fails when %s" % (g[0], show(p, 8), ", ".join(
                    "%s%s" % ("" if v else "not ", describe(a)) for a, v in sorted(asg.items())) or "always"))
                return False
        return True
    r = cs.run(leaf)
    if r:
        return None
    return fail[0] if fail else "case distinction failed"


def describe(a):
    k, _, _, d = ATOMS[a]
    if k == "bit":
        return "bit " + d
    return "[%s %s 0]" % (show(d, 4), "<" if k == "neg" else "=")
