"""Protocol layer: SM2 and SM9 objects are run on named unknowns.  Hash, random source, point, pairing and big-integer
operations are replaced by their specifications (decided elsewhere: C03-C13); every branch on an unknown is decided both
ways, and each decision is kept as a fact about the unknowns.  What the code returned on a path is then compared with what
the standard prescribes under the facts of that path."""
from . import anf
from .anf import AnfDomain, Bits, mk, tobits, atom_bit, bxor, bnot
from .engine import State, Ptr, Part, UNDEF, Finding, Sel
from .ir import AnalysisError
from .fe import Field, Ring, FE, FeDomain, Tok, Slice, parts, CONSTS, SH, cases

N256 = 1 << 256


class Val:
    """opaque value spread over n bytes of memory"""
    __slots__ = ()


class Int(Val):
    """256-bit integer term + c (term None: the constant c)"""
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t, self.c = t, c

    def __eq__(self, o):
        return type(o) is Int and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((self.t, self.c))

    def __repr__(self):
        return "%r%+d" % (self.t, self.c) if self.t is not None else hex(self.c)


class Pt(Val):
    """sum of multiples of named points of one group"""
    __slots__ = ("g", "m", "key")

    def __init__(self, g, m):
        self.g = g
        self.m = {b: k for b, k in m.items() if k.r.reduce(k.n)}
        self.key = (g, frozenset((b, k.key()) for b, k in self.m.items()))

    def __eq__(self, o):
        return type(o) is Pt and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return " + ".join("[%r]%s" % (k, b if isinstance(b, str) else "Q") for b, k in self.m.items()) or "O"


class Gt(Val):
    """product of powers of pairings of named points"""
    __slots__ = ("m", "key")

    def __init__(self, m):
        self.m = {b: k for b, k in m.items() if k.r.reduce(k.n)}
        self.key = frozenset((b, k.key()) for b, k in self.m.items())

    def __eq__(self, o):
        return type(o) is Gt and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return " * ".join("e%r^(%r)" % (b, k) for b, k in self.m.items()) or "1"


class AnyDiff:
    """machine word that is zero exactly when all pairs of bytes are equal"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = frozenset(s)

    def __eq__(self, o):
        return type(o) is AnyDiff and self.s == o.s

    def __hash__(self):
        return hash(self.s)


class Cut(Exception):
    """path not followed further"""


class PRing(Ring):
    """relations are applied until nothing changes"""

    def reduce(self, a):
        if not self.rules and not self.substs:
            return a
        for _ in range(50):
            b = Ring.reduce(self, a)
            if b == a:
                return a
            a = b
        raise AnalysisError("relations between unknowns do not terminate")


class ProtoDomain(FeDomain):
    whole_bytes = False

    def __init__(self, w):
        FeDomain.__init__(self)
        self.w = w
        self.xors = {}

    def opaque(self, c):
        return type(c) is Part and isinstance(c.v, (FE, Tok, Val))

    def split(self, v, n):
        if isinstance(v, Val):
            return [Part(v, i, n) for i in range(n)]
        return FeDomain.split(self, v, n)

    def join(self, cells):
        if any(type(c) is Part and isinstance(c.v, Val) for c in cells):
            if all(c is not UNDEF for c in cells):
                return Slice(cells)
        return FeDomain.join(self, cells)

    def bits(self, v, w):
        """Slice -> plain bits"""
        if type(v) is Slice:
            r = ()
            for c in v.cells:
                b = FeDomain.join(self, [c])
                r += tuple(tobits(b, 8))
            return mk(list(r)) if not all(x <= 1 for x in r) else sum(x << i for i, x in enumerate(r))
        return v

    def binop(self, op, w, a, b):
        if type(a) is AnyDiff or type(b) is AnyDiff:
            if op == "or":
                s = set()
                for x in (a, b):
                    if x == 0 and type(x) is int:
                        continue
                    d = x.s if type(x) is AnyDiff else self.diffs(x, w)
                    if d is None:
                        raise AnalysisError("cannot combine comparison results at %s" % self.eng.where())
                    s |= d
                return AnyDiff(s)
            if op == "and" and (a == (1 << w) - 1 or b == (1 << w) - 1 or a == 255 or b == 255):
                return a if type(a) is AnyDiff else b
            raise AnalysisError("arithmetic on an accumulated comparison result at %s" % self.eng.where())
        if isinstance(a, Slice) or isinstance(b, Slice):
            if op in ("xor", "or", "and"):
                a, b = self.bits(a, w), self.bits(b, w)
        if op == "or" and type(a) in (Bits, int) and type(b) in (Bits, int) and not (type(a) is int and type(b) is int):
            da, db = self.diffs(a, w), self.diffs(b, w)
            if da is not None and db is not None and (len(da) + len(db) > 1):
                # two whole bytes: keep the pairs when both bytes overlap (accumulation), else ordinary or
                ta, tb = tobits(a, w), tobits(b, w)
                if any(x > 1 and y > 1 for x, y in zip(ta, tb)):
                    return AnyDiff(da | db)
        r = FeDomain.binop(self, op, w, a, b)
        if op == "xor" and type(r) is Bits and w == 8 or (op == "xor" and type(r) is Bits and all(x == 0 for x in tobits(r, w)[8:])):
            k = tuple(tobits(r, w)[:8])
            self.xors.setdefault(k, (tuple(tobits(a, w)[:8]), tuple(tobits(b, w)[:8])))
        return r

    def diffs(self, x, w):
        """set of byte pairs when x is a byte (zero extended) or an exclusive or of two bytes"""
        if type(x) is int:
            return frozenset() if x == 0 else None
        if type(x) is not Bits:
            return None
        t = tobits(x, w)
        if any(t[8:]):
            return None
        k = tuple(t[:8])
        p = self.xors.get(k, (k, (0,) * 8))
        return frozenset([tuple(sorted(p))])

    def zext(self, v, w0, w):
        return v if type(v) is AnyDiff else FeDomain.zext(self, self.bits(v, w0), w0, w)

    def sext(self, v, w0, w):
        return v if type(v) is AnyDiff else FeDomain.sext(self, self.bits(v, w0), w0, w)

    def trunc(self, v, w0, w):
        if type(v) is AnyDiff and w >= 8:
            return v
        return FeDomain.trunc(self, v, w0, w)

    def icmp(self, p, w, a, b):
        if type(a) is AnyDiff or type(b) is AnyDiff:
            x, y = (a, b) if type(a) is AnyDiff else (b, a)
            if p in ("eq", "ne") and y == 0:
                return int(self.w.equal_bytes(sorted(x.s)) == (p == "eq"))
            raise AnalysisError("comparison of an accumulated comparison result at %s" % self.eng.where())
        if type(a) is Slice or type(b) is Slice:
            A, B = self.w.norm(tobits(self.bits(a, w), w)), self.w.norm(tobits(self.bits(b, w), w))
            if p in ("eq", "ne"):
                return int(self.w.equal_bytes([tuple(sorted((tuple(A[i:i + 8]), tuple(B[i:i + 8])))) for i in range(0, w, 8)]) == (p == "eq"))
            raise AnalysisError("ordering of opaque words at %s" % self.eng.where())
        if p in ("eq", "ne") and type(a) in (Bits, int) and type(b) in (Bits, int) and w >= 8:
            # one unknown byte against another byte: the same condition memcmp decides
            ps = None
            if type(b) is int and b == 0 or type(a) is int and a == 0:
                ps = self.diffs(b if type(a) is int else a, w)
            else:
                A, B = tobits(a, w), tobits(b, w)
                if not any(A[8:]) and not any(B[8:]):
                    ps = [tuple(sorted((tuple(A[:8]), tuple(B[:8]))))]
            if ps and all(all(u > 1 or v > 1 for u, v in zip(x, y)) for x, y in ps):
                return int(self.w.equal_bytes(sorted(ps)) == (p == "eq"))
        return FeDomain.icmp(self, p, w, a, b)

    def cond_refine(self, st, c):
        if type(c) is Bits and len(c.b) == 1:
            return int(self.w.bit(c.b[0]))
        return c

    def memcmp(self, eng, st, a, b, n):
        if type(n) is not int:
            return NotImplemented
        ca, cb = eng.load_range(st, a, n), eng.load_range(st, b, n)
        ps = []
        for x, y in zip(ca, cb):
            x, y = tuple(tobits(eng.join_bytes([x]), 8)), tuple(tobits(eng.join_bytes([y]), 8))
            ps.append(tuple(sorted((x, y))))
        return 0 if self.w.equal_bytes(ps) else 1


def show_bytes(ps):
    a = anf.show_bit(ps[0][0][0], 1), anf.show_bit(ps[0][1][0], 1)
    return "%d bytes (%s.. and %s..) equal" % (len(ps), a[0][:50], a[1][:50])


GROUPS = {"sm2::internal::sm2_ec_": ("2", "fp2", "fn2", 1), "sm9::internal::sm9_ec_": ("9", "fp9", "fn9", 1), "sm9::internal::sm9_ec2_": ("T", "fp9", "fn9", 2)}
from .curve import SM2, SM9, SM9T
CURVES = {"2": SM2, "9": SM9, "T": SM9T}


class Proto(Field):
    MAXDRAW = 3

    def __init__(self, m, script=()):
        self.facts = {}          # decided conditions
        self.bounds = {}         # term -> [lo, hi]
        self.cells = {}          # term -> its 32 bytes
        self.pts = {}            # coordinate key -> Pt
        self.pows = {}
        self.draws = []
        self.scalars = []        # (function, group, byte cells, FE): every scalar multiplication
        self.delta = None
        self.canval = {}
        self.lazy = {}           # condition -> pair of integers it says differ
        Field.__init__(self, m, script)
        self.rings = {k: PRing(p) for k, p in CONSTS.items()}
        self.st = State()
        self.install2()

    def mkdomain(self):
        return ProtoDomain(self)

    # ------------------------------------------------------------- decisions
    def decide(self, key, text):
        if key in self.facts:
            return self.facts[key]
        k = len(self.taken)
        dec = self.script[k] if k < len(self.script) else True
        self.taken.append((text, dec))
        self.facts[key] = dec
        return dec

    def norm(self, t):
        return t

    def bit(self, b):
        neg = 0 in anf.POLYS[b]
        k = bnot(b) if neg else b
        if k in self.lazy:
            return (not self.eq(*self.lazy[k])) != neg
        return self.decide(("bit", k), anf.show_bit(k, 3)) != neg

    def bitfact(self, b):
        """value of a one-bit condition if it is known"""
        if b <= 1:
            return bool(b)
        neg = 0 in anf.POLYS[b]
        k = bnot(b) if neg else b
        v = self.facts.get(("bit", k))
        return None if v is None else v != neg

    def equal_bytes(self, ps):
        ps = [p for p in ps if p[0] != p[1]]
        for x, y in ps:
            if any(u <= 1 and v <= 1 and u != v for u, v in zip(x, y)):
                return False
        k = self.pairs_known(ps)
        return k if k is not None else self.decide(("bytes", frozenset(ps)), show_bytes(ps))

    def pairs_known(self, ps):
        s = {p for p in ps if p[0] != p[1]}
        if any(u <= 1 and v <= 1 and u != v for x, y in s for u, v in zip(x, y)):
            return False
        for k, v in self.facts.items():
            if k[0] == "bytes" and v:
                s -= k[1]
        if not s:
            return True
        same = set()
        for k, v in self.facts.items():
            if k[0] == "bytes" and v:
                same |= k[1]
        for k, v in self.facts.items():
            if k[0] == "bytes" and not v and k[1] - same <= s:
                return False
        return None

    def bytes_fact(self, a, b):
        """True/False/None: are the byte cells a and b equal on this path"""
        ps = []
        for x, y in zip(a, b):
            x, y = [tuple(tobits(self.eng.join_bytes([c]), 8)) for c in (x, y)]
            ps.append(tuple(sorted((x, y))))
        return self.pairs_known(ps)

    # -------------------------------------------------------------- integers
    def rng(self, t):
        if t is None:
            return 0, 0
        r = self.bounds.get(t)
        if r is None:
            if isinstance(t, Tok):
                n = (1 << (8 * t.n)) - 1
                if isinstance(t.t, tuple) and t.t[0] == "can":
                    n = CONSTS[t.t[1]] - 1
            elif t[0] == "be":
                n = (1 << (8 * (len(t) - 1))) - 1
            elif t[0] == "mod":
                n = t[2] - 1
            else:
                n = N256 - 1
            r = self.bounds[t] = [0, n]
        return r

    def lt(self, a, b):
        if a.t == b.t:
            return a.c < b.c
        (la, ha), (lb, hb) = self.rng(a.t), self.rng(b.t)
        if ha + a.c < lb + b.c:
            return True
        if la + a.c >= hb + b.c:
            return False
        d = self.decide(("lt", a, b), "%r < %r" % (a, b))
        if b.t is None or a.t is None:
            x, k = (a, b.c - a.c) if b.t is None else (b, a.c - b.c)
            r = self.rng(x.t)
            if b.t is None:
                if d:
                    r[1] = min(r[1], k - 1)
                else:
                    r[0] = max(r[0], k)
            elif d:
                r[0] = max(r[0], k + 1)
            else:
                r[1] = min(r[1], k)
        return d

    def eq(self, a, b):
        if a.t == b.t:
            return a.c == b.c
        (la, ha), (lb, hb) = self.rng(a.t), self.rng(b.t)
        if ha + a.c < lb + b.c or hb + b.c < la + a.c:
            return False
        if la == ha and lb == hb:
            return True
        d = self.decide(("eq",) + tuple(sorted((a, b), key=repr)), "%r = %r" % (a, b))
        if a.t is None or b.t is None:
            x, k = (a, b.c - a.c) if b.t is None else (b, a.c - b.c)
            r = self.rng(x.t)
            if d:
                r[0] = r[1] = k
            else:
                if r[0] == k:
                    r[0] += 1
                if r[1] == k:
                    r[1] -= 1
        return d

    def cmp3(self, x, y):
        if self.lt(x, y):
            return (1 << 32) - 1
        (lx, hx), (ly, hy) = self.rng(x.t), self.rng(y.t)
        if x.t == y.t:
            return int(x.c != y.c)
        if lx + x.c > hy + y.c:
            return 1
        if lx == hx and ly == hy:
            return int(lx + x.c != ly + y.c)
        b = atom_bit(("differ", x, y))
        self.lazy[b] = (x, y)
        return mk([b] + [0] * 31)

    def get_int(self, st, p):
        cells = self.eng.load_bytes(st, p, 32)
        c0 = cells[0]
        if type(c0) is Part and isinstance(c0.v, (Int, FE, Pt)) and c0.i == 0:
            v = c0.v
            if all(type(c) is Part and (c.v is v or c.v == v) and c.i == k for k, c in enumerate(cells)):
                if type(v) is Int:
                    return v
            raise Finding("field", "residue used as a plain integer", self.eng.where())
        if all(type(c) is int for c in cells):
            return Int(None, int.from_bytes(bytes(cells), "little"))
        if any(c is UNDEF for c in cells):
            raise Finding("undef", "uninitialised integer used", self.eng.where())
        raise AnalysisError("cannot read an integer at %s" % self.eng.where())

    def put_int(self, st, p, v):
        if v.t is not None:
            lo, hi = self.rng(v.t)
            if lo == hi:
                v = Int(None, lo + v.c)
        self.eng.store_cells(st, p, [Part(v, i, 32) for i in range(32)] if v.t is not None else list((v.c % N256).to_bytes(32, "little")))

    def int_of(self, cells):
        cells = [self.d.recover(c) for c in cells]
        if any(c is UNDEF for c in cells):
            raise Finding("undef", "number read from uninitialised bytes", self.eng.where())
        if all(type(c) is int for c in cells):
            return Int(None, int.from_bytes(bytes(cells), "big"))
        t = self.int_term(cells)
        if isinstance(t, Tok) and isinstance(t.t, tuple) and t.t[0] == "int":
            return Int(t.t[1], t.t[2])
        self.cells.setdefault(t, list(cells))
        return Int(t, 0)

    def bytes_of_int(self, v):
        if v.t is not None:
            lo, hi = self.rng(v.t)
            if lo == hi:
                v = Int(None, lo + v.c)
        if v.t is None:
            return list((v.c % N256).to_bytes(32, "big"))
        if v.c == 0 and len(self.cells.get(v.t, ())) == 32:
            return list(self.cells[v.t])
        return parts(Tok(("int", v.t, v.c), 32), 32)

    def add_const(self, v, k):
        """(v + k mod 2^256, carry or borrow)"""
        lo, hi = self.rng(v.t)
        if v.t is None:
            x = v.c + k
            return Int(None, x % N256), int(not 0 <= x < N256)
        if k >= 0:
            over = not self.lt(v, Int(None, N256 - k))
            return Int(v.t, v.c + k - (N256 if over else 0)), int(over)
        under = self.lt(v, Int(None, -k))
        return Int(v.t, v.c + k + (N256 if under else 0)), int(under)

    def fe_of_term(self, r, t):
        v = self.canval.get(t)
        if v is not None and v.r is r:
            return v
        lo, hi = self.rng(t)
        if lo == hi:
            return FE(r, r.const(lo))
        return FE(r, r.var(("res", t)))

    def fe_of(self, r, v):
        f = FE(r, r.const(v.c))
        return f if v.t is None else self.fe_of_term(r, v.t) + f

    def from_cells(self, r, cells):
        return self.fe_of(r, self.int_of(cells))

    def bytes_of(self, v):
        """big-endian encoding; the very bytes it came from when those were below the prime"""
        r = v.r
        n = r.reduce(v.n)
        if v.one() and v.const() is None:
            rest = dict(n)
            c = rest.pop(0, 0)
            if len(rest) == 1:
                (m, k), = rest.items()
                if k == 1:
                    for i, name in enumerate(r.names):
                        if m == 1 << (SH * i):
                            if isinstance(name, tuple) and name[0] == "res":
                                if c == 0 and name[1] not in self.canval and not self.lt(Int(name[1], 0), Int(None, r.p)):
                                    v = Int(name[1], -r.p)
                                    if self.lt(v, Int(None, r.p)):
                                        return self.bytes_of_int(v)
                                lo, hi = self.rng(name[1])
                                if c > r.p // 2:
                                    c -= r.p
                                if lo + c >= 0 and hi + c < r.p:
                                    return self.bytes_of_int(Int(name[1], c))
                            break
        return Field.bytes_of(self, FE(r, n, v.d).simp() if n != v.n else v)

    # ------------------------------------------------------------- residues
    def known_zero(self, v):
        """True / False / None"""
        r = v.r
        n = r.reduce(v.n)
        if not n:
            return True
        if len(n) == 1 and 0 in n:
            return False
        fld = self.name[r.p]
        for q, z in self.zero_polys:
            if q is r:
                z = r.reduce(z)
                m = max(n)
                if m in z and len(z) == len(n) and n == r.scale(z, n[m] * pow(z[m], -1, r.p)):
                    return True
        for z in self.nonzero[fld]:
            z = r.reduce(z)
            while z:
                q = r.exact_div(n, z)
                if q is None:
                    break
                n = q
                if len(n) == 1 and 0 in n:
                    return False
        for i, name in enumerate(r.names):
            if isinstance(name, tuple) and name[0] == "res":
                while all(r.exp(m, i) for m in n):
                    lo, hi = self.rng(name[1])
                    if lo + -lo % r.p <= hi:
                        break
                    n = {m - (1 << (SH * i)): k for m, k in n.items()}
        if len(n) == 1 and 0 in n:
            return False
        x = self.linear(r, n)
        if x is not None:
            t, c = x
            lo, hi = self.rng(t)
            v0 = lo + (-c - lo) % r.p
            if v0 > hi:
                return False
            if lo == hi:
                return True
        return None

    def linear(self, r, n):
        """(t, c) when n is a multiple of res(t) + c"""
        n = dict(n)
        c = n.pop(0, 0)
        if len(n) == 1:
            (m, k), = n.items()
            for i, name in enumerate(r.names):
                if m == 1 << (SH * i):
                    if isinstance(name, tuple) and name[0] == "res":
                        return name[1], c * pow(k, -1, r.p) % r.p
                    return None
        return None

    def is_zero(self, v):
        k = self.known_zero(v)
        if k is not None:
            return k
        n0 = v.r.reduce(v.n)
        d = Field.is_zero(self, v)
        x = self.linear(v.r, n0)
        if x is not None:
            t, c = x
            b = self.rng(t)
            v0 = b[0] + (-c - b[0]) % v.r.p
            if d and v0 + v.r.p > b[1]:
                b[0] = b[1] = v0
            elif not d:
                if v0 == b[0]:
                    b[0] += 1
                v1 = b[1] - (b[1] + c) % v.r.p
                if v1 == b[1]:
                    b[1] -= 1
        return d

    def assume_zero(self, r, n):
        # v^2 - f for a square root or ordinate v: rewrite v^2
        for i in range(len(r.names)):
            ms = [m for m in n if r.exp(m, i)]
            if len(ms) == 1 and ms[0] == 2 << (SH * i) and i not in r.rules:
                c = n[ms[0]]
                r.rules[i] = r.scale({m: x for m, x in n.items() if m != ms[0]}, -pow(c, -1, r.p))
                return
        k = len(self.open)
        Field.assume_zero(self, r, n)
        if len(self.open) > k:
            self.zero_polys.append((r, n))

    def elim_order(self, r):
        return reversed(range(len(r.names)))     # newer unknowns may be functions of older ones, not the other way round

    zero_polys = property(lambda s: s.__dict__.setdefault("_zp", []))

    def power(self, v, k):
        p = v.r.p
        if k < 8 or k == p - 2 or v.const() is not None:
            return Field.power(self, v, k)
        r = v.r
        key = (self.name[p], v.key(), k)
        if key not in self.pows:
            x = FE(r, r.var(("pow", v.key(), k)))
            self.pows[key] = x
            for (f, vk, k2), z in list(self.pows.items()):
                if f == self.name[p] and vk == v.key() and k2 == 2 * k - 1:
                    r.rules[len(r.names) - 1] = (z * v).n       # (v^k)^2 = v^(2k-1) v
        return self.pows[key]

    # ---------------------------------------------------------------- points
    def scalar_used(self, *x):
        self.scalars.append(x)
        if self.draws and sum(y[0] == x[0] for y in self.scalars) > len(self.draws) + 1:
            raise Cut()      # the caller sees more attempts than draws

    def fn_of(self, g):
        return self.rings[{"2": "fn2", "9": "fn9", "T": "fn9"}[g]]

    def gen(self, g):
        r = self.fn_of(g)
        return Pt(g, {"G": FE(r, r.const(1))})

    def scal(self, p, k):
        return Pt(p.g, {b: x * k for b, x in p.m.items()})

    def plus(self, p, q, s=1):
        m = dict(p.m)
        for b, k in q.m.items():
            m[b] = (m[b] + k * s) if b in m else k * s
        return Pt(p.g, m)

    def coords(self, p):
        """affine coordinates of a finite point: field elements"""
        fld = {"2": "fp2"}.get(p.g, "fp9")
        r = self.rings[fld]
        self.pts[p.key] = p
        if len(p.m) == 1:
            (b, k), = p.m.items()
            if isinstance(b, tuple) and k.const() == 1:
                return list(b[1])
        deg = 2 if p.g == "T" else 1
        return [FE(r, r.var((c, i, p.key))) for c in "xy" for i in range(deg)]

    def point(self, g, cs):
        """point with the given affine coordinates"""
        r = cs[0].r
        deg = 2 if g == "T" else 1
        h = deg

        def var(v, neg=False):
            n = r.scale(r.reduce(v.n), -1) if neg else r.reduce(v.n)
            if len(n) == 1 and v.one():
                (m, k), = n.items()
                if k == 1:
                    for i, name in enumerate(r.names):
                        if m == 1 << (SH * i):
                            return name if isinstance(name, tuple) and len(name) == 3 and name[0] in "xy" else None
        v0 = var(cs[0])
        if v0:
            k = v0[2]
            if all(var(cs[i]) == ("x", i, k) for i in range(deg)):
                if all(var(cs[deg + i]) == ("y", i, k) for i in range(deg)):
                    return self.pts[k]
                if all(var(cs[deg + i], True) == ("y", i, k) for i in range(deg)):
                    return self.scal(self.pts[k], -1)
        cv = CURVES[g]
        gx = [c for e in cv.g for c in e]
        if all(c.const() == k for c, k in zip(cs, gx)):
            return self.gen(g)
        if not self.on_curve(g, cs):
            raise Finding("invalid-point", "arithmetic on a point that is not known to lie on the curve", self.eng.where())
        cs = tuple(cs)
        one = FE(self.fn_of(g), {0: 1})
        for b, c2 in list(self.affine.items()):
            if c2[0] == g and all(u == v for u, v in zip(c2[1], cs)):
                return Pt(g, {b: one})
            if c2[0] == g and all(u == v for u, v in zip(c2[1][:deg], cs[:deg])) and all(u == -v for u, v in zip(c2[1][deg:], cs[deg:])):
                return Pt(g, {b: -one})
        b = (g, cs)
        self.affine[b] = (g, cs)
        return Pt(g, {b: one})

    affine = property(lambda s: s.__dict__.setdefault("_affine", {}))

    def curve_value(self, g, cs):
        """y^2 - x^3 - a x - b as a list of field elements"""
        from .curve import El
        cv = CURVES[g]
        r = cs[0].r
        deg = cv.deg
        x, y = El(cs[:deg]), El(cs[deg:])

        def k(c):
            return El(FE(r, r.const(v)) for v in c)
        e = y * y - x * x * x - x * k(cv.a) - k(cv.b)
        return [FE(r, r.reduce(v.n), v.d) for v in e]

    def on_curve(self, g, cs):
        return all(self.known_zero(v) is True for v in self.curve_value(g, cs))

    def infinite(self, p):
        if not p.m:
            return True
        if len(p.m) == 1:
            (b, k), = p.m.items()
            return self.is_zero(k)
        return self.decide(("inf", p.key), "%r is the point at infinity" % p)

    def known_infinite(self, p):
        if not p.m:
            return True
        if len(p.m) == 1:
            (b, k), = p.m.items()
            return self.known_zero(k)
        return self.facts.get(("inf", p.key))

    def get_val(self, st, p, n, ty, what):
        cells = self.eng.load_bytes(st, p, n)
        c0 = cells[0]
        if type(c0) is Part and isinstance(c0.v, ty) and c0.i == 0 and c0.n == n:
            v = c0.v
            if all(type(c) is Part and (c.v is v or c.v == v) and c.i == k for k, c in enumerate(cells)):
                return v
        if any(c is UNDEF for c in cells):
            raise Finding("undef", "uninitialised %s used" % what, self.eng.where())
        return None

    def get_j(self, st, p, g):
        n = 192 if g == "T" else 96
        v = self.get_val(st, p, n, Pt, "point")
        if v is None or v.g != g:
            r = self.rings["fp2" if g == "2" else "fp9"]
            deg = 2 if g == "T" else 1
            cs = [self.get(st, r, Ptr(p.obj, p.off + 32 * i), "point") for i in range(3 * deg)]
            z = cs[2 * deg:]
            if all(self.known_zero(c) for c in z):
                return Pt(g, {})
            if z[0].const() == 1 and all(c.const() == 0 for c in z[1:]):
                return self.point(g, cs[:2 * deg])
            raise AnalysisError("projective point with general third coordinate at %s" % self.eng.where())
        return v

    def put_j(self, st, p, v):
        n = 192 if v.g == "T" else 96
        self.eng.store_cells(st, p, [Part(v, i, n) for i in range(n)])

    def get_a(self, st, p, g):
        r = self.rings["fp2" if g == "2" else "fp9"]
        n = 4 if g == "T" else 2
        return self.point(g, [self.get(st, r, Ptr(p.obj, p.off + 32 * i), "point") for i in range(n)])

    def put_a(self, st, p, v):
        n = 4 if v.g == "T" else 2
        if self.infinite(v):
            r = self.rings["fp2" if v.g == "2" else "fp9"]
            cs = [FE(r, {})] * n
        else:
            cs = self.coords(v)
        for i, c in enumerate(cs):
            self.put(st, Ptr(p.obj, p.off + 32 * i), c)

    # -------------------------------------------------------------------- GT
    def pair(self, p, q):
        r = self.rings["fn9"]
        m = {}
        for a, x in p.m.items():
            for b, y in q.m.items():
                m[(a, b)] = x * y
        return Gt(m)

    def gt_pow(self, x, k):
        return Gt({b: v * k for b, v in x.m.items()})

    def gt_mul(self, x, y):
        m = dict(x.m)
        for b, k in y.m.items():
            m[b] = m[b] + k if b in m else k
        return Gt(m)

    def gt_cells(self, v):
        return [Part(v, i, 384) for i in range(384)]

    def gt_bytes(self, v):
        return parts(Tok(("gt", v.key), 384), 384)

    # ------------------------------------------------------------------- hash
    def stream(self, cells):
        """canonical form of a byte string"""
        out = []
        i = 0
        cells = [self.d.recover(c) for c in cells]
        while i < len(cells):
            c = cells[i]
            if c is UNDEF:
                raise Finding("undef", "uninitialised byte hashed", self.eng.where())
            if type(c) is Part and isinstance(c.v, Tok):
                n = c.n
                if c.i == 0 and all(type(x) is Part and x.v is c.v and x.i == k for k, x in enumerate(cells[i:i + n])) and len(cells) - i >= n:
                    out.append(("T", c.v))
                    i += n
                    continue
                out.append((c.v, c.i))
            elif type(c) is int:
                out.append(c)
            elif type(c) is Part:
                raise Finding("field", "internal form of a number hashed", self.eng.where())
            else:
                out.append(("b",) + tuple(tobits(c, 8)))
            i += 1
        return tuple(out)

    def digest(self, ds, stream):
        return parts(Tok(("H", ds, tuple(stream)), ds), ds)

    # ------------------------------------------------------------------ hooks
    def install2(self):
        e = self.eng
        U = r"^number::internal::(common|x64)::uint256_"

        def h(name, fn):
            e.hook(U + name + r"\(", fn)

        def cmp(eng, st, f, a):
            x, y = self.get_int(st, a[0]), self.get_int(st, a[1])
            return self.cmp3(x, y)
        h("cmp", cmp)

        def cmpk(eng, st, f, a):
            x, y = self.get_int(st, a[0]), Int(None, a[1])
            return self.cmp3(x, y)
        h("cmp_uint(32|64)", cmpk)
        h("equal", lambda eng, st, f, a: int(self.eq(self.get_int(st, a[0]), self.get_int(st, a[1]))))
        h("equal_zero", lambda eng, st, f, a: int(self.eq(self.get_int(st, a[0]), Int(None, 0))))
        h("equal_one", lambda eng, st, f, a: int(self.eq(self.get_int(st, a[0]), Int(None, 1))))
        h("cpy", lambda eng, st, f, a: self.put_int(st, a[0], self.get_int(st, a[1])))
        h("set_zero", lambda eng, st, f, a: self.put_int(st, a[0], Int(None, 0)))
        h("set_one", lambda eng, st, f, a: self.put_int(st, a[0], Int(None, 1)))
        h("from_bytes", lambda eng, st, f, a: self.put_int(st, a[0], self.int_of(eng.load_bytes(st, a[1], 32))))
        h("to_bytes", lambda eng, st, f, a: eng.store_cells(st, a[0], self.bytes_of_int(self.get_int(st, a[1]))))

        def arith(sign, small):
            def hh(eng, st, f, a):
                x = self.get_int(st, a[1])
                if small:
                    k = a[2]
                    if type(k) is not int:
                        raise AnalysisError("symbolic addend at " + eng.where())
                    y = Int(None, k)
                else:
                    y = self.get_int(st, a[2])
                if y.t is not None and x.t is None and sign > 0:
                    x, y = y, x
                if y.t is not None:
                    if sign < 0 and y.t == x.t:
                        x, y = Int(None, x.c), Int(None, y.c)
                        if x.c < y.c:
                            raise AnalysisError("negative difference")
                    else:
                        raise AnalysisError("sum of two unknown integers at " + eng.where())
                v, c = self.add_const(x, sign * y.c)
                self.put_int(st, a[0], v)
                return c
            return hh
        h("add_carry", arith(1, False))
        h("add_carry_uint(32|64)", arith(1, True))
        h("sub_borrow", arith(-1, False))
        h("sub_borrow_uint(32|64)", arith(-1, True))

        def mod(eng, st, f, a):
            if type(a[2]) is not int:
                raise AnalysisError("reduction of a number of symbolic length")
            M = self.get_int(st, a[3])
            if M.t is not None:
                raise AnalysisError("reduction modulo an unknown")
            v = self.int_of(eng.load_bytes(st, a[1], a[2]))
            if v.t is None:
                self.put_int(st, a[0], Int(None, v.c % M.c))
            else:
                lo, hi = self.rng(v.t)
                self.put_int(st, a[0], v if hi + v.c < M.c else Int(("mod", v, M.c), 0))
        h("mod", mod)

        for pre, (g, fp, fn, deg) in GROUPS.items():
            self.install_group("^" + pre, g)

        F = r"^sm9::internal::sm9_"

        def out12(st, p, v):
            e.store_cells(st, p, self.gt_cells(v))

        def in12(st, p):
            v = self.get_val(st, p, 384, Gt, "element of GT")
            if v is None:
                raise AnalysisError("cannot read an element of GT at %s" % e.where())
            return v
        e.hook(F + r"pairing\(", lambda eng, st, f, a: out12(st, a[0], self.pairing(self.get_a(st, a[1], "9"), self.get_a(st, a[2], "T"))))
        e.hook(F + r"pairing_P1_Q\(", lambda eng, st, f, a: out12(st, a[0], self.pairing(self.gen("9"), self.get_a(st, a[1], "T"))))
        e.hook(F + r"pairing_P_P2\(", lambda eng, st, f, a: out12(st, a[0], self.pairing(self.get_a(st, a[1], "9"), self.gen("T"))))
        e.hook(F + r"fp12_mul\(", lambda eng, st, f, a: out12(st, a[0], self.gt_mul(in12(st, a[1]), in12(st, a[2]))))
        e.hook(F + r"fp12_sqr\(", lambda eng, st, f, a: out12(st, a[0], self.gt_mul(in12(st, a[1]), in12(st, a[1]))))
        e.hook(F + r"fp12_cpy\(", lambda eng, st, f, a: out12(st, a[0], in12(st, a[1])))
        e.hook(F + r"fp12_inv\(", lambda eng, st, f, a: out12(st, a[0], self.gt_pow(in12(st, a[1]), FE(self.rings["fn9"], self.rings["fn9"].const(-1)))))
        e.hook(F + r"fp12_set_one\(", lambda eng, st, f, a: out12(st, a[0], Gt({})))

        def pw(eng, st, f, a):
            k = self.from_cells(self.rings["fn9"], eng.load_bytes(st, a[2], 32))
            out12(st, a[0], self.gt_pow(in12(st, a[1]), k))
            self.scalar_used("pow", "GT", eng.load_bytes(st, a[2], 32), k)
        e.hook(F + r"fp12_pow\(", pw)
        e.hook(F + r"fp12_to_bytes\(", lambda eng, st, f, a: eng.store_cells(st, a[0], self.gt_bytes(in12(st, a[1]))))
        e.hook(r"^__cxa_guard_acquire", lambda eng, st, f, a: 1)
        e.hook(r"^__cxa_guard_release", lambda eng, st, f, a: None)

        # hash and random source
        def reset(eng, st, f, a):
            if self.delta is None:
                self.pending = a[0]
            return NotImplemented
        e.hook(r"^hash_lib::Hash<.*>::reset\(", reset)

        def mreset(eng, st, f, a):
            if self.delta is None:
                if a[0].obj != self.pending.obj:
                    raise AnalysisError("hash object layout")
                self.delta = a[0].off - self.pending.off
            eng.store_cells(st, a[0], parts(Tok(("hs", ()), 16), 16))
        e.hook(r"^mock_reset$", mreset)

        def state(st, p):
            cells = e.load_bytes(st, p, 16)
            c = cells[0]
            if type(c) is Part and isinstance(c.v, Tok) and c.v.t[0] == "hs" and all(type(x) is Part and x.v is c.v and x.i == k for k, x in enumerate(cells)):
                return c.v.t[1]
            raise Finding("hash", "hash object used before initialisation", e.where())

        def update(eng, st, f, a):
            if self.delta is None:
                raise AnalysisError("hash used before construction")
            s = Ptr(a[0].obj, a[0].off + self.delta)
            cur = state(st, s)
            n = a[2]
            if type(n) is int:
                add = self.stream(eng.load_bytes(st, a[1], n)) if n else ()
            else:
                add = (("range", a[1].obj, a[1].off, n),)
            eng.store_cells(st, s, parts(Tok(("hs", cur + add), 16), 16))
        e.hook(r"^hash_lib::Hash<.*>::update\(", update)

        def last(eng, st, f, a):
            cur = state(st, a[0])
            if type(a[3]) is not int or a[3]:
                raise AnalysisError("buffered bytes in the hash object")
            eng.store_cells(st, a[1], self.digest(a[5], cur))
            eng.store_cells(st, a[0], parts(Tok(("hs", ()), 16), 16))
        e.hook(r"^mock_last$", last)

        def rngh(eng, st, f, a):
            if type(a[1]) is not int:
                raise AnalysisError("random request of symbolic size")
            if len(self.draws) >= self.MAXDRAW:
                raise Cut()
            t = Tok(("rng", len(self.draws)), a[1])
            self.draws.append(t)
            eng.store_cells(st, a[0], parts(t, a[1]))
        e.hook(r"^mock_rng$", rngh)

    def pairing(self, p, q):
        for x in (p, q):
            if self.known_infinite(x) is not False:
                raise AnalysisError("pairing of a point that may be infinite")
        return self.pair(p, q)

    def install_group(self, P, g):
        e = self.eng
        deg = 2 if g == "T" else 1

        def h(name, fn):
            e.hook(P + name + r"\(", fn)

        def scalar(st, p, what):
            cells = self.eng.load_bytes(st, p, 32)
            k = self.from_cells(self.fn_of(g), cells)
            self.scalar_used(what, g, cells, k)
            return k
        h("j_mul_g", lambda eng, st, f, a: self.put_j(st, a[0], self.scal(self.gen(g), scalar(st, a[1], "mul_g"))))

        def mula(eng, st, f, a):
            p = self.get_a(st, a[2], g)
            self.put_j(st, a[0], self.scal(p, scalar(st, a[1], "mul_a")))
        h("j_mul_a", mula)
        h("j_add", lambda eng, st, f, a: self.put_j(st, a[0], self.plus(self.get_j(st, a[1], g), self.get_j(st, a[2], g))))
        h("j_add_a", lambda eng, st, f, a: self.put_j(st, a[0], self.plus(self.get_j(st, a[1], g), self.get_a(st, a[2], g))))
        h("j_dbl", lambda eng, st, f, a: self.put_j(st, a[0], self.scal(self.get_j(st, a[1], g), 2)))
        h("j_neg", lambda eng, st, f, a: self.put_j(st, a[0], self.scal(self.get_j(st, a[1], g), -1)))
        h("j_(cpy|normal)", lambda eng, st, f, a: self.put_j(st, a[0], self.get_j(st, a[1], g)))
        h("j_set_inf", lambda eng, st, f, a: self.put_j(st, a[0], Pt(g, {})))
        h("j_is_inf", lambda eng, st, f, a: int(self.infinite(self.get_j(st, a[1 - 1], g))))
        h("j_from_a", lambda eng, st, f, a: self.put_j(st, a[0], self.get_a(st, a[1], g)))
        h("j_to_a", lambda eng, st, f, a: self.put_a(st, a[0], self.get_j(st, a[1], g)))
        h("j_equal", lambda eng, st, f, a: int(self.infinite(self.plus(self.get_j(st, a[0], g), self.get_j(st, a[1], g), -1))))

    # --------------------------------------------------------------- set-up
    def mem(self, name, cells):
        k = self.eng.new_obj(self.st, name, len(cells), "input")
        o = self.st.mem[k]
        for i, c in enumerate(cells):
            o.cells[i] = c
        return Ptr(k, 0)

    def buf(self, name, n):
        return Ptr(self.eng.new_obj(self.st, name, n, "input"), 0)

    def tok(self, name, n):
        return parts(Tok((name,), n), n)

    def sym_len(self, name):
        return anf.mk([atom_bit(("len", name, i)) for i in range(64)])

    def call(self, fname, args):
        """('ret', value) or ('throw', value)"""
        f = self.m.fn(fname)
        outs = self.eng.call(self.st, f, args)
        if len(outs) != 1:
            raise AnalysisError("%d outcomes of %s" % (len(outs), fname))
        k, st, v = outs[0]
        self.st = st
        return k, v

    def read(self, p, n):
        o = self.eng.obj(self.st, p.obj)
        r = []
        for i in range(n):
            c = self.eng.load_cell(self.st, o, p.off + i)
            r.append(c if c is UNDEF or isinstance(c, Sel) else self.d.recover(self.eng.join_bytes([c])))
        return r

    def show_facts(self):
        return "; ".join("%s: %s" % (t, "yes" if d else "no") for t, d in self.taken) or "no condition"

    def d_bits(self, b):
        """byte value with the given bits"""
        return mk(list(b)) if any(x > 1 for x in b) else sum(x << i for i, x in enumerate(b))

    def equal_in_range(self, pairs, cells, lo, hi):
        """the bytes known equal to cells form an integer with these bounds"""
        other = []
        for c in cells:
            b = tuple(tobits(self.eng.join_bytes([c]), 8))
            o = [y if x == b else x for x, y in pairs if b in (x, y)]
            if len(o) != 1:
                return False
            other.append(self.d_bits(o[0]))
        v = self.int_of(other)
        a, b = self.rng(v.t)
        return a + v.c >= lo and b + v.c <= hi
