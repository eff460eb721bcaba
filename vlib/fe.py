"""Field-element domain: values of F_p and Z_n are quotients of polynomials over named unknowns, held in memory as opaque
32-byte tokens; the arithmetic layer below (decided by C09 and C10) is replaced by its specification.  Branches on
equality of field elements are decided from what is known about the unknowns (what is nonzero, which points lie on the
curve); an undecidable one is analysed both ways."""
import re

from .anf import AnfDomain, Bits, mk, tobits, atom_bit
from .engine import Engine, State, Ptr, Part, Sel, UNDEF, Finding
from .ir import AnalysisError

SH = 12
MASK = (1 << SH) - 1


class Ring:
    """polynomials modulo p: dict packed monomial -> coefficient"""

    def __init__(self, p):
        self.p = p
        self.names = []
        self.index = {}
        self.rules = {}      # var -> polynomial for var^2
        self.substs = []     # (var, poly)

    def var(self, name):
        i = self.index.get(name)
        if i is None:
            i = self.index[name] = len(self.names)
            self.names.append(name)
        return {1 << (SH * i): 1}

    def const(self, c):
        c %= self.p
        return {0: c} if c else {}

    def add(self, a, b, k=1):
        if not b:
            return a
        r = dict(a)
        p = self.p
        for m, c in b.items():
            v = (r.get(m, 0) + k * c) % p
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def scale(self, a, k):
        k %= self.p
        if not k:
            return {}
        if k == 1:
            return a
        p = self.p
        return {m: c * k % p for m, c in a.items()}

    def mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) == 1 and 0 in a:
            return self.scale(b, a[0])
        if len(b) == 1 and 0 in b:
            return self.scale(a, b[0])
        if len(a) > len(b):
            a, b = b, a
        r = {}
        g = r.get
        bi = list(b.items())
        for m, c in a.items():
            for n, d in bi:
                k = m + n
                r[k] = g(k, 0) + c * d
        p = self.p
        r = {m: c % p for m, c in r.items()}
        r = {m: c for m, c in r.items() if c}
        return self.reduce(r) if self.rules or self.substs else r

    def pow(self, a, n):
        r = self.const(1)
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def exp(self, m, i):
        return (m >> (SH * i)) & MASK

    def reduce(self, a):
        for i, q in self.substs:
            if any(self.exp(m, i) for m in a):
                parts = {}
                for m, c in a.items():
                    e = self.exp(m, i)
                    parts.setdefault(e, {})[m - (e << (SH * i))] = c
                r = {}
                qe, k = self.const(1), 0
                for e in sorted(parts):
                    while k < e:
                        qe = self.mul_raw(qe, q)
                        k += 1
                    r = self.add(r, self.mul_raw(parts[e], qe))
                a = r
        for i, q in self.rules.items():
            while any(self.exp(m, i) > 1 for m in a):
                lo, hi = {}, {}
                for m, c in a.items():
                    if self.exp(m, i) > 1:
                        hi[m - (2 << (SH * i))] = c
                    else:
                        lo[m] = c
                a = self.add(lo, self.mul_raw(hi, q))
        return a

    def mul_raw(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = m + n
                r[k] = (r.get(k, 0) + c * d) % self.p
        return {m: c for m, c in r.items() if c}

    def divides(self, m, n):
        """monomial m divides n"""
        while m or n:
            if (m & MASK) > (n & MASK):
                return False
            m >>= SH
            n >>= SH
        return True

    def exact_div(self, a, d):
        """a / d if exact else None"""
        if not d:
            return None
        ld = max(d)
        inv = pow(d[ld], -1, self.p)
        q = {}
        a = dict(a)
        while a:
            la = max(a)
            if not self.divides(ld, la):
                return None
            k, c = la - ld, a[la] * inv % self.p
            q[k] = c
            for m, x in d.items():
                v = (a.get(m + k, 0) - c * x) % self.p
                if v:
                    a[m + k] = v
                else:
                    a.pop(m + k, None)
        return q

    def content(self, a):
        """monomial gcd"""
        it = iter(a)
        try:
            g = next(it)
        except StopIteration:
            return 0
        for m in it:
            r, k, x, y = 0, 0, g, m
            while x and y:
                r |= min(x & MASK, y & MASK) << k
                x >>= SH
                y >>= SH
                k += SH
            g = r
            if not g:
                break
        return g

    def show(self, a, lim=6):
        if not a:
            return "0"
        out = []
        for m, c in sorted(a.items(), reverse=True)[:lim]:
            s = []
            for i, n in enumerate(self.names):
                e = self.exp(m, i)
                if e:
                    s.append(str(n) + ("^%d" % e if e > 1 else ""))
            if c > self.p // 2:
                c -= self.p
            k = str(c) if abs(c) < 10 ** 6 else hex(c)
            out.append("*".join(([k] if c != 1 or not s else []) + s))
        return " + ".join(out) + (" + ... (%d terms)" % len(a) if len(a) > lim else "")


class FE:
    """num/den of a ring"""
    __slots__ = ("r", "n", "d", "_h")

    def __init__(self, r, n, d=None):
        self.r, self.n = r, n
        self.d = d if d is not None and n else {0: 1}
        self._h = None

    def simp(self):
        r = self.r
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c != 1:
                self.n = r.scale(self.n, pow(c, -1, r.p))
                self.d = {m: 1}
            if m:
                g = r.content(self.n)
                k, sh, x, y = 0, 0, g, m
                while x and y:
                    k |= min(x & MASK, y & MASK) << sh
                    x >>= SH
                    y >>= SH
                    sh += SH
                if k:
                    self.n = {a - k: c for a, c in self.n.items()}
                    self.d = {m - k: 1}
        return self

    def one(self):
        return len(self.d) == 1 and self.d.get(0) == 1

    def __add__(self, o):
        r = self.r
        if self.d == o.d:
            return FE(r, r.add(self.n, o.n), self.d).simp()
        return FE(r, r.add(r.mul(self.n, o.d), r.mul(o.n, self.d)), r.mul(self.d, o.d)).simp()

    def __neg__(self):
        return FE(self.r, self.r.scale(self.n, -1), self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if type(o) is int:
            return FE(self.r, self.r.scale(self.n, o), self.d)
        r = self.r
        return FE(r, r.mul(self.n, o.n), {0: 1} if self.one() and o.one() else r.mul(self.d, o.d)).simp()

    def inv(self):
        return FE(self.r, self.d, self.n).simp()

    def __eq__(self, o):
        if not isinstance(o, FE) or o.r is not self.r:
            return False
        if self.d == o.d:
            return self.r.reduce(self.n) == self.r.reduce(o.n)
        return self.r.mul(self.n, o.d) == self.r.mul(o.n, self.d)

    def __hash__(self):
        return hash(self.r.p)

    def key(self):
        return (frozenset(self.n.items()), frozenset(self.d.items()))

    def const(self):
        """constant value or None"""
        if self.one() and (not self.n or (len(self.n) == 1 and 0 in self.n)):
            return self.n.get(0, 0)
        return None

    def __repr__(self):
        s = self.r.show(self.n, 3)
        return s if self.one() else "(%s)/(%s)" % (s, self.r.show(self.d, 3))


class Tok:
    """opaque n-byte value named by a term"""
    __slots__ = ("t", "n")
    tab = {}

    def __new__(cls, t, n):
        o = cls.tab.get((t, n))
        if o is None:
            o = object.__new__(cls)
            o.t, o.n = t, n
            cls.tab[(t, n)] = o
        return o

    def __repr__(self):
        return "<%s>" % (self.t,)


class Slice:
    """bytes i..i+n of an opaque value, as one scalar"""
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = tuple(cells)

    def __eq__(self, o):
        return isinstance(o, Slice) and self.cells == o.cells

    def __hash__(self):
        return hash(len(self.cells))

    def __repr__(self):
        return "%s.." % (self.cells[0],)


_parts = {}


def parts(v, n):
    """byte cells of an opaque value (shared, so that equal values are identical cells)"""
    if isinstance(v, FE):
        return [Part(v, i, n) for i in range(n)]
    r = _parts.get((v, n))
    if r is None:
        r = _parts[(v, n)] = [Part(v, i, n) for i in range(n)]
    return list(r)


class FeDomain(AnfDomain):
    """booleans and ordinary integers as in AnfDomain; opaque tokens for numbers"""

    def __init__(self):
        AnfDomain.__init__(self, ripple=False)
        self.bitsof = {}     # Bits -> (Tok, i)

    def opaque(self, c):
        return type(c) is Part and isinstance(c.v, (FE, Tok, G))

    def join(self, cells):
        if any(self.opaque(c) for c in cells):
            if len(cells) == 1:
                c = cells[0]
                if isinstance(c.v, FE):
                    raise AnalysisError("single byte of a number's internal form read at %s" % self.eng.where())
                b = Bits(tuple(atom_bit(("tok", c.v.t, c.v.n, c.i, j)) for j in range(8)))
                self.bitsof[b] = c
                return b
            if all(c is not UNDEF for c in cells):
                return Slice(cells)
        return AnfDomain.join(self, cells)

    def split(self, v, n):
        if type(v) is Slice:
            return list(v.cells)
        if isinstance(v, (FE, Tok, G)):
            return parts(v, n)
        return AnfDomain.split(self, v, n)

    def recover(self, c):
        """memory cell -> Part of the token it is a byte of, when it is one"""
        if type(c) is Bits:
            return self.bitsof.get(c, c)
        return c

    def binop(self, op, w, a, b):
        if isinstance(a, (Slice, FE, Tok)) or isinstance(b, (Slice, FE, Tok)):
            raise AnalysisError("machine arithmetic on an opaque number at %s" % self.eng.where())
        return AnfDomain.binop(self, op, w, a, b)


class G:
    """group element [k*base + s]P (scalar multiplication layer): s a polynomial, base another element or None; one object per value"""
    __slots__ = ("base", "k", "s", "_f")
    tab = {}

    def __new__(cls, s, base=None, k=0):
        key = (base, k, frozenset(s.items()))
        o = cls.tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.base, o.k, o.s, o._f = base, k, s, None
            cls.tab[key] = o
        return o

    def flat(self):
        """polynomial of the multiple"""
        chain, x = [], self
        while x.base is not None and x._f is None:
            chain.append(x)
            x = x.base
        f = x.s if x.base is None else x._f
        if chain:
            # value = k1*(k2*(...)+s2)+s1
            r, c = {}, 1
            for y in chain:
                for m, v in y.s.items():
                    r[m] = r.get(m, 0) + c * v
                c *= y.k
            for m, v in f.items():
                r[m] = r.get(m, 0) + c * v
            f = {m: v for m, v in r.items() if v}
            self._f = f
        return f

    def scaled(self, n):
        if self.base is None:
            return G({m: v * n for m, v in self.s.items()} if n else {})
        return G({}, self, n) if n != -1 else G({m: -v for m, v in self.s.items()}, self.base, -self.k)


CONSTS = {
    "fp2": 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF,
    "fn2": 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123,
    "fp9": 0xB640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D,
    "fn9": 0xB640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25}
RR = 1 << 256


class Field:
    """hooks of the arithmetic layer plus the case knowledge"""

    def __init__(self, m, script=()):
        self.m = m
        self.d = self.mkdomain()
        self.eng = Engine(m, self.d)
        self.rings = {k: Ring(p) for k, p in CONSTS.items()}
        self.name = {p: k for k, p in CONSTS.items()}
        self.nonzero = {k: [] for k in CONSTS}
        self.script = list(script)
        self.taken = []          # decisions made at undecidable equalities: (text, bool)
        self.open = []           # "= 0" hypotheses that could not be used as substitutions
        self.ctxs = {}
        self.log = []
        self.install()

    def mkdomain(self):
        return FeDomain()

    # ---------------------------------------------------------------- contexts
    def ctx(self, st, p):
        if not isinstance(p, Ptr) or p.obj is None:
            raise AnalysisError("modulus context %r" % (p,))
        k = (p.obj, p.off)
        if k not in self.ctxs:
            q = self.eng.load(st, p, PTR(self.m))
            cells = self.eng.load_bytes(st, q, 32)
            if any(type(c) is not int for c in cells):
                raise AnalysisError("modulus is not constant at " + self.eng.where())
            v = int.from_bytes(bytes(cells), "little")
            if v not in self.name:
                raise AnalysisError("unknown modulus %#x" % v)
            self.ctxs[k] = self.name[v]
        return self.rings[self.ctxs[k]]

    # ------------------------------------------------------------------ memory
    def get(self, st, r, p, what="operand"):
        cells = self.eng.load_bytes(st, p, 32)
        c0 = cells[0]
        if type(c0) is Part and isinstance(c0.v, FE) and c0.i == 0 and c0.n == 32:
            v = c0.v
            if all(type(c) is Part and c.i == k and c.n == 32 and (c.v is v or c.v == v) for k, c in enumerate(cells)):
                if v.r is not r:
                    raise Finding("field", "number modulo one prime used as a number modulo another", self.eng.where())
                return v
        if all(type(c) is int for c in cells):
            x = int.from_bytes(bytes(cells), "little")
            if x >= r.p:
                raise Finding("canonical", "constant number not reduced", self.eng.where())
            return FE(r, r.const(x * pow(RR, -1, r.p)))
        if any(c is UNDEF for c in cells):
            raise Finding("undef", "uninitialised number used as %s" % what, self.eng.where())
        raise AnalysisError("cannot read a number at %s: %r" % (self.eng.where(), cells[:2]))

    def put(self, st, p, v):
        self.eng.store_cells(st, p, [Part(v, i, 32) for i in range(32)])

    def new(self, st, name, vals):
        """object holding the given field elements"""
        k = self.eng.new_obj(st, name, 32 * len(vals), "input")
        o = st.mem[k]
        for j, v in enumerate(vals):
            if v is None:
                continue
            for i in range(32):
                o.cells[32 * j + i] = Part(v, i, 32)
        return Ptr(k, 0)

    def fe(self, fld, name):
        r = self.rings[fld]
        return FE(r, r.var(name))

    def c(self, fld, k):
        r = self.rings[fld]
        return FE(r, r.const(k))

    # ------------------------------------------------------------------- bytes
    def bytes_of(self, v):
        """big-endian 32-byte encoding of a residue"""
        k = v.const()
        if k is not None:
            return list(k.to_bytes(32, "big"))
        t = Tok(("can", self.name[v.r.p], v.key()), 32)
        self.canval = getattr(self, "canval", {})
        self.canval[t] = v
        return [Part(t, i, 32) for i in range(32)]

    def from_cells(self, r, cells):
        """residue modulo r of the big-endian integer in cells"""
        cells = [self.d.recover(c) for c in cells]
        if all(type(c) is int for c in cells):
            return FE(r, r.const(int.from_bytes(bytes(cells), "big")))
        if any(c is UNDEF for c in cells):
            raise Finding("undef", "number read from uninitialised bytes", self.eng.where())
        t = self.int_term(cells)
        v = getattr(self, "canval", {}).get(t) if isinstance(t, Tok) else None
        if v is not None and v.r is r:
            return v
        return FE(r, r.var(("res", t)))

    def int_term(self, cells):
        """name of the big-endian integer in cells"""
        c0 = cells[0]
        if type(c0) is Part and isinstance(c0.v, Tok) and c0.n == len(cells) and all(
                type(c) is Part and c.v is c0.v and c.i == k for k, c in enumerate(cells)):
            return c0.v
        return ("be",) + tuple(c if type(c) is int else (c.v.t, c.v.n, c.i) if type(c) is Part else tobits(c, 8) for c in cells)

    # --------------------------------------------------------------- decisions
    def is_zero(self, v):
        r = v.r
        n = r.reduce(v.n)
        if not n:
            return True
        if len(n) == 1 and 0 in n:
            return False
        fld = self.name[r.p]
        for z in self.nonzero[fld]:
            z = r.reduce(z)
            if not z:
                continue
            while True:
                q = r.exact_div(n, z)
                if q is None:
                    break
                n = q
                if len(n) == 1 and 0 in n:
                    return False
        k = len(self.taken)
        dec = self.script[k] if k < len(self.script) else True
        self.taken.append((r.show(n, 4), dec))
        if dec:
            self.assume_zero(r, n)
        else:
            self.nonzero[fld].append(n)
        return dec

    def assume_zero(self, r, n):
        for i in self.elim_order(r):
            lin = [m for m in n if r.exp(m, i)]
            if len(lin) == 1 and lin[0] == 1 << (SH * i) and i not in r.rules:
                c = n[lin[0]]
                rest = {m: x for m, x in n.items() if m != lin[0]}
                r.substs.append((i, r.scale(rest, -pow(c, -1, r.p))))
                return
        self.open.append(r.show(n, 4))

    def elim_order(self, r):
        return range(len(r.names))

    def assume_nonzero(self, v):
        self.nonzero[self.name[v.r.p]].append(v.n)

    def curve_rule(self, y, rhs):
        """y is an unknown with y^2 = rhs"""
        r = y.r
        (m, c), = y.n.items()
        i = 0
        while m >> (SH * (i + 1)):
            i += 1
        r.rules[i] = rhs.n

    # -------------------------------------------------------------------- hooks
    def install(self):
        e = self.eng
        P = r"^number::internal::(common|x64)::mont256_"

        def op(name, fn, nargs):
            def h(eng, st, f, a):
                r = self.ctx(st, a[0])
                vals = [self.get(st, r, p) for p in a[2:2 + nargs]]
                self.put(st, a[1], fn(*vals))
                return None
            e.hook(P + name + r"\(", h)
        op("add", lambda a, b: a + b, 2)
        op("sub", lambda a, b: a - b, 2)
        op("neg", lambda a: -a, 1)
        op("dbl", lambda a: a * 2, 1)
        op("tpl", lambda a: a * 3, 1)
        op("div2", lambda a: a * pow(2, -1, a.r.p), 1)
        op("mul", lambda a, b: a * b, 2)
        op("sqr", lambda a: a * a, 1)
        op("cpy", lambda a: a, 1)
        op("inv", self.inverse, 1)

        def const(name, k):
            def h(eng, st, f, a):
                r = self.ctx(st, a[0])
                self.put(st, a[1], FE(r, r.const(k)))
            e.hook(P + name + r"\(", h)
        const("set_zero", 0)
        const("set_one", 1)

        def setu(eng, st, f, a):
            if type(a[2]) is not int:
                raise AnalysisError("symbolic small number")
            r = self.ctx(st, a[0])
            self.put(st, a[1], FE(r, r.const(a[2])))
        e.hook(P + r"set_uint(32|64)\(", setu)

        def powr(eng, st, f, a):
            r = self.ctx(st, a[0])
            v = self.get(st, r, a[2])
            cells = self.eng.load_bytes(st, a[3], 32)
            if any(type(c) is not int for c in cells):
                raise AnalysisError("power by a symbolic exponent at " + self.eng.where())
            self.put(st, a[1], self.power(v, int.from_bytes(bytes(cells), "little")))
        e.hook(P + r"pow\(", powr)

        def eq(fn, nargs):
            def h(eng, st, f, a):
                r = self.ctx(st, a[0])
                return int(self.is_zero(fn(*[self.get(st, r, p) for p in a[1:1 + nargs]])))
            return h
        e.hook(P + r"equal\(", eq(lambda a, b: a - b, 2))
        e.hook(P + r"equal_zero\(", eq(lambda a: a, 1))
        e.hook(P + r"equal_one\(", eq(lambda a: a - FE(a.r, a.r.const(1)), 1))

        def fb(eng, st, f, a):
            r = self.ctx(st, a[0])
            self.put(st, a[1], self.from_cells(r, eng.load_bytes(st, a[2], 32)))
        e.hook(P + r"from_bytes\(", fb)

        def fbx(eng, st, f, a):
            r = self.ctx(st, a[0])
            if type(a[3]) is not int:
                raise AnalysisError("number of symbolic length at " + self.eng.where())
            self.put(st, a[1], self.from_cells(r, eng.load_bytes(st, a[2], a[3])))
        e.hook(P + r"from_bytes_ex\(", fbx)

        def tb(eng, st, f, a):
            r = self.ctx(st, a[0])
            eng.store_cells(st, a[1], self.bytes_of(self.get(st, r, a[2])))
        e.hook(P + r"to_bytes\(", tb)

    def inverse(self, a):
        if self.is_zero(a):
            return FE(a.r, {})
        return a.inv()

    def power(self, v, k):
        p = v.r.p
        if k == p - 2:
            return self.inverse(v)
        if k < 8:
            r = FE(v.r, v.r.const(1))
            for _ in range(k):
                r = r * v
            return r
        c = v.const()
        if c is not None:
            return FE(v.r, v.r.const(pow(c, k, p)))
        return FE(v.r, v.r.var(("pow", v.key(), k)))


def PTR(m):
    for t in m.types:
        if t.k == "p":
            return t
    raise AnalysisError("no pointer type")


def cases(fn, limit=64):
    """run fn(script) over all decision scripts; fn returns the list of decisions taken and its payload"""
    todo = [[]]
    out = []
    while todo:
        s = todo.pop()
        taken, res = fn(s)
        out.append((taken, res))
        if len(out) > limit:
            raise AnalysisError("too many undecidable equalities")
        for k in range(len(s), len(taken)):
            todo.append([d for _, d in taken[:k]] + [not taken[k][1]])
    return out
