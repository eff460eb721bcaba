"""Bit-level value domain: every bit is a polynomial over GF(2) (algebraic normal form) in interned
atoms.  Atoms are input bits, bits of modular sums (kept as commutative-associative normal forms),
bits of non-linear byte tables (decomposed over a common basis of truth tables, so that S-box
tables, T-tables and the AES instructions meet in one normal form), and results of uninterpreted
functions.  Two values are equal in the domain iff their normal forms are identical."""
from .engine import Domain, Ptr, Part, UNDEF, Sel, Finding, AnalysisError

# ---------------------------------------------------------------- interned polynomials
MONOS = [frozenset()]
MONO_ID = {frozenset(): 0}
POLYS = [frozenset(), frozenset([0])]
POLY_ID = {POLYS[0]: 0, POLYS[1]: 1}
ATOMS = []
ATOM_ID = {}
LIMIT = 400000


def intern(p):
    i = POLY_ID.get(p)
    if i is None:
        i = len(POLYS)
        POLYS.append(p)
        POLY_ID[p] = i
    return i


def atom_bit(desc):
    """polynomial id of a fresh/interned atom"""
    a = ATOM_ID.get(desc)
    if a is None:
        a = len(ATOMS)
        ATOMS.append(desc)
        ATOM_ID[desc] = a
    m = frozenset([a])
    k = MONO_ID.get(m)
    if k is None:
        k = len(MONOS)
        MONOS.append(m)
        MONO_ID[m] = k
    return intern(frozenset([k]))


_xc = {}


def bxor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    k = (a, b) if a < b else (b, a)
    r = _xc.get(k)
    if r is None:
        r = intern(POLYS[a] ^ POLYS[b])
        if len(_xc) < 3000000:
            _xc[k] = r
    return r


_ac = {}


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    k = (a, b) if a < b else (b, a)
    r = _ac.get(k)
    if r is None:
        pa, pb = POLYS[a], POLYS[b]
        fa, fb = prod_factors(a), prod_factors(b)
        if fa is not None or fb is not None or (min(len(pa), len(pb)) > 32 and len(pa) * len(pb) > PROD_LIMIT):
            r = make_prod((fa or frozenset([a])) | (fb or frozenset([b])))
            _ac[k] = r
            return r
        if len(pa) * len(pb) > LIMIT:
            raise AnalysisError("polynomial blow-up (%d x %d monomials)" % (len(pa), len(pb)))
        acc = set()
        for x in pa:
            mx = MONOS[x]
            for y in pb:
                m = mx | MONOS[y]
                i = MONO_ID.get(m)
                if i is None:
                    i = len(MONOS)
                    MONOS.append(m)
                    MONO_ID[m] = i
                if i in acc:
                    acc.discard(i)
                else:
                    acc.add(i)
        r = intern(frozenset(acc))
        _ac[k] = r
    return r


PROD_LIMIT = 6000


def prod_factors(a):
    """factors of a lazily kept conjunction, or None"""
    p = POLYS[a]
    if len(p) == 1:
        m = MONOS[next(iter(p))]
        if len(m) == 1:
            d = ATOMS[next(iter(m))]
            if d[0] == "prod":
                return d[1]
    return None


def make_prod(fs):
    fs = frozenset(x for x in fs if x != 1)
    if not fs:
        return 1
    if 0 in fs or any((x ^ 0) and bxor(x, 1) in fs for x in fs):
        return 0
    if len(fs) == 1:
        return next(iter(fs))
    return atom_bit(("prod", fs))


def conj(bits):
    """conjunction of many conditions in one normal form (single literals stay what they are)"""
    fs = set()
    for b in bits:
        fs |= factors(b)
    return make_prod(fs)


def bnot(a):
    return bxor(a, 1)


FACT = {}       # complement of a disjunction -> complements of what was joined


def factors(n):
    f = prod_factors(n)
    return f if f is not None else FACT.get(n) or frozenset([n])


def bor(a, b):
    if a == 0 or b == 0 or a == b or a == 1 or b == 1:
        return a if b == 0 or a == b or a == 1 else b
    na, nb = bxor(a, 1), bxor(b, 1)
    # differences collected bit by bit: keep what was joined, multiply out only while it stays small
    f = factors(na) | factors(nb)
    if prod_factors(na) is not None or prod_factors(nb) is not None or len(POLYS[na]) * len(POLYS[nb]) > 256:
        return bxor(make_prod(f), 1)
    r = bxor(bxor(a, b), band(a, b))
    FACT.setdefault(bxor(r, 1), f)
    return r


def bsel(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    return bxor(band(c, bxor(a, b)), b)


def xor_many(ids):
    acc = set()
    for i in ids:
        acc ^= POLYS[i]
    return intern(frozenset(acc))


def show_bit(b, lim=6):
    t = []
    for m in list(POLYS[b])[:lim]:
        t.append("*".join(show_atom(ATOMS[a]) for a in MONOS[m]) or "1")
    if len(POLYS[b]) > lim:
        t.append("...(%d terms)" % len(POLYS[b]))
    return " ^ ".join(t) or "0"


def show_atom(d):
    if d[0] == "in":
        return "%s[%d].%d" % d[1:]
    if d[0] == "tab":
        return "tab%d.%d(..)" % (d[1], d[2])
    s = str(d)
    return s if len(s) < 40 else s[:37] + "..."


class Bits:
    """a word: tuple of polynomial ids, least significant first"""
    __slots__ = ("b", "_h")

    def __init__(self, b):
        self.b = b
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Bits) and o.b == self.b

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.b)
        return self._h

    def __len__(self):
        return len(self.b)

    def __repr__(self):
        return "Bits%d<%s>" % (len(self.b), show_bit(self.b[0], 2))


class AutoBits(Bits):
    """select of two integer constants: width known only at the use"""
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Bits) and o.b == self.b

    __hash__ = Bits.__hash__


def mk(bits):
    """int when every bit is constant, else Bits"""
    for x in bits:
        if x > 1:
            return Bits(tuple(bits))
    r = 0
    for i, x in enumerate(bits):
        r |= x << i
    return r


def tobits(v, w):
    if type(v) is int:
        return tuple((v >> i) & 1 for i in range(w))
    if isinstance(v, Bits):
        if len(v.b) != w:
            if type(v) is AutoBits and len(v.b) < w:
                return v.b + (0,) * (w - len(v.b))
            if type(v) is AutoBits and not any(v.b[w:]):
                return v.b[:w]
            raise AnalysisError("width mismatch %d/%d" % (len(v.b), w))
        return v.b
    raise AnalysisError("not a scalar: %r" % (v,))


def inp(name, nbytes):
    return [Bits(tuple(atom_bit(("in", name, i, j)) for j in range(8))) for i in range(nbytes)]


# ------------------------------------------------------------------- truth-table basis
class Basis:
    """span of truth tables over k index bits; constants and projections are elements 0..k"""

    def __init__(self, k):
        self.k = k
        self.n = 1 << k
        self.rows = []     # (pivot, vec, comb) comb = bitmask over basis elements
        self.elems = []
        self.cache = {}
        full = (1 << self.n) - 1
        self._add(full)
        for j in range(k):
            t = 0
            for x in range(self.n):
                if (x >> j) & 1:
                    t |= 1 << x
            self._add(t)

    def _reduce(self, v):
        comb = 0
        for piv, vec, c in self.rows:
            if (v >> piv) & 1:
                v ^= vec
                comb ^= c
        return v, comb

    def _add(self, v):
        r, comb = self._reduce(v)
        e = len(self.elems)
        self.elems.append(v)
        if r:
            piv = r.bit_length() - 1
            self.rows.append((piv, r, comb ^ (1 << e)))
        return e

    def decompose(self, tt):
        r = self.cache.get(tt)
        if r is None:
            v, comb = self._reduce(tt)
            if v:
                e = self._add(tt)
                comb = 1 << e
            r = [e for e in range(len(self.elems)) if (comb >> e) & 1]
            self.cache[tt] = r
        return r


BASES = {}


_comp = {}


def compose_index(idx):
    """when every index bit is an affine combination of table bits of one common inner index, return
    (inner index, truth table of every index bit over the inner index)"""
    if idx in _comp:
        return _comp[idx]
    inner = None
    fns = []
    ok = True
    for b in idx:
        f = 0
        for m in POLYS[b]:
            M = MONOS[m]
            if len(M) == 0:
                f ^= -1
                continue
            if len(M) != 1:
                ok = False
                break
            d = ATOMS[next(iter(M))]
            if d[0] != "tab" or (inner is not None and d[3] != inner):
                ok = False
                break
            inner = d[3]
            f ^= BASES[d[1]].elems[d[2]]
        if not ok:
            break
        fns.append(f)
    r = None
    if ok and inner is not None:
        full = (1 << (1 << len(inner))) - 1
        r = (inner, [f & full for f in fns])
    _comp[idx] = r
    return r


def table_bit(tt, k, idx):
    """bit of a constant table with truth table tt over the k index bits idx (polynomial ids)"""
    if k == 0:
        return tt & 1
    comp = compose_index(idx)
    if comp is not None:
        inner, fns = comp
        t2 = 0
        for x in range(1 << len(inner)):
            m = 0
            for j, f in enumerate(fns):
                m |= ((f >> x) & 1) << j
            t2 |= ((tt >> m) & 1) << x
        return table_bit(t2, len(inner), inner)
    B = BASES.get(k)
    if B is None:
        B = BASES[k] = Basis(k)
    acc = []
    for e in B.decompose(tt):
        if e == 0:
            acc.append(1)
        elif e <= k:
            acc.append(idx[e - 1])
        else:
            acc.append(atom_bit(("tab", k, e, idx)))
    return xor_many(acc)


def table_lookup(table, outw, v):
    """v: Bits/int index; table: python list of ints (2^len(v)); returns outw-bit value"""
    if type(v) is int:
        return table[v]
    free = [i for i, x in enumerate(v.b) if x > 1]
    base = sum(x << i for i, x in enumerate(v.b) if x <= 1)
    k = len(free)
    ents = []
    for m in range(1 << k):
        x = base
        for j, f in enumerate(free):
            if (m >> j) & 1:
                x |= 1 << f
        ents.append(table[x])
    idx = tuple(v.b[f] for f in free)
    out = []
    for j in range(outw):
        tt = 0
        for m, e in enumerate(ents):
            if (e >> j) & 1:
                tt |= 1 << m
        out.append(table_bit(tt, k, idx))
    return mk(out)


# ------------------------------------------------------------------------- sums
SUMREG = {}


def sum_terms(v, w):
    """-> (dict word->coef, const)"""
    if type(v) is int:
        return {}, v
    s = SUMREG.get(v.b)
    if s is not None and s[0] == w:
        return s[1], s[2]
    return {v.b: 1}, 0


def segmented(w, t, terms, const):
    """t + const, cut where the carry is known so that equal sums have equal bits however they were reached"""
    out, j = [], 0
    carry = 0
    while j < w:
        x, k = t[j], (const >> j) & 1
        if x == 0:
            out.append(k ^ carry)
            carry &= k
            j += 1
            continue
        if k == carry:
            out.append(x)
            j += 1
            continue
        # carry out of this bit is x: unknown until a position with t = const = 0 ends the run
        e = j + 1
        while e < w and (t[e] or (const >> e) & 1):
            e += 1
        e = min(w, e + 1)
        n = e - j
        kk = ((const >> j) & ((1 << n) - 1)) + carry
        key = (n, frozenset({t[j:e]: 1}.items()), kk)
        out += [atom_bit(("sum", key, i)) for i in range(n)]
        carry = 0
        j = e
    bits = tuple(out)
    SUMREG[bits] = (w, terms, const)
    return mk(bits)


def make_sum(w, terms, const):
    M = (1 << w) - 1
    terms = {t: c & M for t, c in terms.items() if c & M}
    const &= M
    if not terms:
        return const
    if len(terms) == 1 and const == 0:
        (t, c), = terms.items()
        if c == 1:
            return mk(t)
        if c & (c - 1) == 0:
            k = c.bit_length() - 1
            return mk((0,) * k + t[:w - k])
    if any(1 in t for t in terms):
        # constant one bits of an operand belong to the constant
        n = {}
        for t, c in terms.items():
            const += c * sum(1 << j for j, x in enumerate(t) if x == 1)
            t = tuple(0 if x == 1 else x for x in t)
            n[t] = n.get(t, 0) + c
        return make_sum(w, n, const)
    if len(terms) == 1:
        (t, c), = terms.items()
        nz = [k for k, x in enumerate(t) if x]
        if not nz:
            return const
        if len(nz) == 1 and t[nz[0]] > 1:
            x = t[nz[0]]
            hi = (const + (c << nz[0])) & M
            return mk([bsel(x, (hi >> j) & 1, (const >> j) & 1) for j in range(w)])
        if c == 1:
            return segmented(w, t, terms, const)
    key = (w, frozenset(terms.items()), const)
    bits = tuple(atom_bit(("sum", key, j)) for j in range(w))
    SUMREG[bits] = (w, terms, const)
    return Bits(bits)


def lin_add(w, a, b, ca=1, cb=1):
    ta, ka = sum_terms(a, w)
    tb, kb = sum_terms(b, w)
    t = {}
    for x, c in ta.items():
        t[x] = t.get(x, 0) + ca * c
    for x, c in tb.items():
        t[x] = t.get(x, 0) + cb * c
    return make_sum(w, t, ca * ka + cb * kb)


def ripple_add(w, a, b, cin=0):
    A, B = tobits(a, w), tobits(b, w)
    c = cin
    out = []
    for x, y in zip(A, B):
        xy = bxor(x, y)
        out.append(bxor(xy, c))
        c = bxor(band(x, y), band(c, xy))
    return mk(out), c


# ------------------------------------------------------------- AES building blocks (FIPS-197)
def gf_mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x11b
        b >>= 1
    return r


def _aes_sbox():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if gf_mul(a, b) == 1:
                inv[a] = b
                break
    s = []
    for a in range(256):
        b = inv[a]
        r = 0
        for i in range(8):
            bit = (b >> i) ^ (b >> ((i + 4) % 8)) ^ (b >> ((i + 5) % 8)) ^ (b >> ((i + 6) % 8)) ^ \
                (b >> ((i + 7) % 8)) ^ (0x63 >> i)
            r |= (bit & 1) << i
        s.append(r)
    return s


AES_SBOX = _aes_sbox()
AES_INV = [0] * 256
for _i, _s in enumerate(AES_SBOX):
    AES_INV[_s] = _i


def xor_b(a, b):
    return mk([bxor(x, y) for x, y in zip(tobits(a, 8), tobits(b, 8))])


def gmul_b(c, a):
    """multiply byte value a by the constant c in GF(2^8) (AES polynomial)"""
    A = tobits(a, 8)
    out = [0] * 8
    for j in range(8):
        p = gf_mul(c, 1 << j)
        for k in range(8):
            if (p >> k) & 1:
                out[k] = bxor(out[k], A[j])
    return mk(out)


def sub_b(a):
    return table_lookup(AES_SBOX, 8, a)


def inv_sub_b(a):
    return table_lookup(AES_INV, 8, a)


def shift_rows(s):
    return [s[(4 * (c + r)) % 16 + r] for c in range(4) for r in range(4)]


def inv_shift_rows(s):
    return [s[(4 * (c - r)) % 16 + r] for c in range(4) for r in range(4)]


def mix_columns(s, m=(2, 3, 1, 1)):
    out = []
    for c in range(4):
        col = s[4 * c:4 * c + 4]
        for r in range(4):
            acc = 0
            for k in range(4):
                acc = xor_b(acc, gmul_b(m[(k - r) % 4], col[k]))
            out.append(acc)
    return out


def inv_mix_columns(s):
    return mix_columns(s, (14, 11, 13, 9))


def xor_block(a, b):
    return [xor_b(x, y) for x, y in zip(a, b)]


# --------------------------------------------------------------------------- the domain
class AnfDomain(Domain):
    def __init__(self, ripple=False):
        self.ripple = ripple
        self.fresh = 0
        self._mob = {}

    def owns(self, c):
        return isinstance(c, Bits)

    def undef(self, w):
        self.fresh += 1
        return Bits(tuple(atom_bit(("undef", self.fresh, j)) for j in range(w)))

    def new(self, w, tag="fresh"):
        self.fresh += 1
        return Bits(tuple(atom_bit((tag, self.fresh, j)) for j in range(w)))

    def split(self, v, n):
        b = tobits(v, 8 * n)
        return [mk(b[8 * i:8 * i + 8]) for i in range(n)]

    def join(self, cells):
        out = []
        for c in cells:
            if c is UNDEF:
                self.eng.undef_uses.append((self.eng.where(), "load"))
                c = self.undef(8)
            if type(c) is Sel:
                c = self.eng.defined(c, 8, "load")
            if type(c) is Part:
                if isinstance(c.v, (Ptr, Sel)):
                    raise AnalysisError("partial pointer load at %s" % self.eng.where())
                v = tobits(c.v, 8 * c.n)
                out.extend(v[8 * c.i:8 * c.i + 8])
                continue
            out.extend(tobits(c, 8))
        return mk(out)

    def binop(self, op, w, a, b):
        if op in ("xor", "and", "or"):
            A, B = tobits(a, w), tobits(b, w)
            f = {"xor": bxor, "and": band, "or": bor}[op]
            return mk([f(x, y) for x, y in zip(A, B)])
        if op in ("shl", "lshr", "ashr"):
            if type(b) is not int:
                return self.var_shift(op, w, a, b)
            A = tobits(a, w)
            if b >= w:
                return 0
            if op == "shl":
                return mk((0,) * b + A[:w - b])
            if op == "lshr":
                return mk(A[b:] + (0,) * b)
            return mk(A[b:] + (A[-1],) * b)
        if op == "add" or op == "sub":
            A, B = tobits(a, w), tobits(b, w)
            if op == "add" and all(x == 0 or y == 0 for x, y in zip(A, B)):
                return mk([bxor(x, y) for x, y in zip(A, B)])
            if self.ripple and (type(a) is int or type(b) is int or self.ripple == "all"):
                if op == "add":
                    return ripple_add(w, a, b)[0]
                nb = mk([bnot(x) for x in B])
                return ripple_add(w, a, nb, 1)[0]
            return lin_add(w, a, b, 1, 1 if op == "add" else -1)
        if op == "mul":
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                if b and b & (b - 1) == 0:
                    return self.binop("shl", w, a, b.bit_length() - 1)
                if b == 0:
                    return 0
                t, k = sum_terms(a, w)
                return make_sum(w, {x: c * b for x, c in t.items()}, k * b)
            # 0/1 operand
            for x, y in ((a, b), (b, a)):
                B = tobits(x, w)
                if all(z == 0 for z in B[1:]):
                    return mk([band(B[0], z) for z in tobits(y, w)])
        if op in ("udiv", "urem") and type(b) is int and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            if op == "udiv":
                return self.binop("lshr", w, a, k)
            return mk(tobits(a, w)[:k] + (0,) * (w - k))
        if op in ("sdiv", "srem") and type(b) is int and b and b & (b - 1) == 0 and tobits(a, w)[-1] == 0:
            return self.binop("u" + op[1:], w, a, b)
        return self.opaque(op, w, a, b)

    def opaque(self, op, w, a, b):
        A, B = tobits(a, w), tobits(b, w)
        return Bits(tuple(atom_bit((op, A, B, j)) for j in range(w)))

    def var_shift(self, op, w, a, b):
        B = tobits(b, w)
        r = a
        for i, x in enumerate(B):
            if x == 0:
                continue
            if (1 << i) >= w:
                raise AnalysisError("variable shift amount too wide at %s" % self.eng.where())
            s = self.binop(op, w, r, 1 << i) if type(r) is not int else self.eng.binop(op, w, r, 1 << i)
            r = self.select(Bits((x,)) if x > 1 else x, s, r)
        return r

    def trunc(self, v, w0, w):
        return mk(tobits(v, w0)[:w])

    def zext(self, v, w0, w):
        return mk(tobits(v, w0) + (0,) * (w - w0))

    def sext(self, v, w0, w):
        b = tobits(v, w0)
        return mk(b + (b[-1],) * (w - w0))

    def select(self, c, a, b):
        if type(c) is int:
            return a if c else b
        if type(a) is int and type(b) is int:
            w = max(a.bit_length(), b.bit_length(), 1)
            cb = c.b[0]
            return AutoBits(tuple(bsel(cb, x, y) for x, y in zip(tobits(a, w), tobits(b, w))))
        w = max(len(x.b) for x in (a, b) if isinstance(x, Bits))
        cb = c.b[0]
        return mk([bsel(cb, x, y) for x, y in zip(tobits(a, w), tobits(b, w))])

    def icmp(self, p, w, a, b):
        A, B = tobits(a, w), tobits(b, w)
        if p in ("eq", "ne"):
            z = 1
            diff = [bxor(x, y) for x, y in zip(A, B)]
            if 1 in diff:
                return int(p == "ne")
            diff = sorted({d for d in diff if d})
            small = True
            for d in diff:
                if len(POLYS[z]) * len(POLYS[d]) > 20000 or prod_factors(bnot(d)) is not None:
                    small = False
                    break
                z = band(z, bnot(d))
            if not small:
                z = conj([bnot(d) for d in diff])
            return mk([z if p == "eq" else bnot(z)])
        if p[0] == "s":
            if A[-1] == B[-1] and A[-1] <= 1:
                return self.icmp("u" + p[1:], w, a, b)
            if type(b) is int and b == 0 and p in ("slt", "sge"):
                return mk([A[-1] if p == "slt" else bnot(A[-1])])
            if type(b) is int and b == (1 << w) - 1 and p in ("sgt", "sle"):
                return mk([bnot(A[-1]) if p == "sgt" else A[-1]])
            fa = A[:-1] + (bnot(A[-1]),)
            fb = B[:-1] + (bnot(B[-1]),)
            return self.icmp("u" + p[1:], w, mk(fa), mk(fb))
        if p in ("ugt", "ule"):
            A, B = B, A
        # now: A < B (for ult/ugt) or not
        neg = p in ("uge", "ule")
        r = self.ult(A, B)
        return mk([bnot(r) if neg else r])

    def ult(self, A, B):
        while A and A[-1] == B[-1]:
            A, B = A[:-1], B[:-1]
        if not A:
            return 0
        maxa = sum((1 if x else 0) << i for i, x in enumerate(A))
        mina = sum((1 if x == 1 else 0) << i for i, x in enumerate(A))
        maxb = sum((1 if x else 0) << i for i, x in enumerate(B))
        minb = sum((1 if x == 1 else 0) << i for i, x in enumerate(B))
        if maxa < minb:
            return 1
        if mina >= maxb:
            return 0
        nv = len({min(x, bnot(x)) for x in A + B if x > 1})
        if nv <= 9:
            # borrow of A - B
            br = 0
            for x, y in zip(A, B):
                br = bxor(band(bnot(x), y), band(bnot(bxor(x, y)), br))
            return br
        if all(x <= 1 for x in B) and mina == 0 and minb & (minb - 1) == 0:
            # x < 2^k  <=>  high bits all zero
            k = minb.bit_length() - 1
            z = 1
            for x in A[k:]:
                z = band(z, bnot(x))
            return z
        return atom_bit(("ult", A, B))

    def cond_key(self, c):
        b = c.b[0]
        if 0 in POLYS[b]:
            return bnot(b), False
        return b, True

    def cond_not(self, c):
        return mk([bnot(c.b[0])])

    def ptr_icmp(self, pred, a, b):
        return None

    # symbolic-index loads
    def sym_load(self, st, p, n):
        if len(p.sym) != 1:
            raise AnalysisError("multi-index load at %s" % self.eng.where())
        v, w, sc = p.sym[0]
        b = tobits(v, w)
        free = [i for i, x in enumerate(b) if x > 1]
        base = sum(x << i for i, x in enumerate(b) if x == 1)
        k = len(free)
        if k > 10:
            raise Finding("oob", "table index with %d unconstrained bits into %s" % (k, p.obj), self.eng.where())
        o = self.eng.obj(st, p.obj)
        rows = []
        const = True
        for m in range(1 << k):
            x = base
            for j, f in enumerate(free):
                if (m >> j) & 1:
                    x |= 1 << f
            if x >> (w - 1):
                x -= 1 << w
            off = p.off + x * sc
            self.eng.check_bounds(o, off, n, "table read")
            cells = [self.eng.load_cell(st, o, off + i) for i in range(n)]
            val = self.eng.join_bytes(cells)
            if type(val) is not int:
                const = False
            rows.append(val)
        idx = tuple(b[f] for f in free)
        if const:
            out = []
            for j in range(8 * n):
                tt = 0
                for m, e in enumerate(rows):
                    tt |= ((e >> j) & 1) << m
                out.append(table_bit(tt, k, idx))
            return mk(out)
        if any(isinstance(r, (Ptr, Sel)) for r in rows):
            raise AnalysisError("symbolic load of pointers at %s" % self.eng.where())
        rowbits = [tobits(r, 8 * n) for r in rows]
        ck = tuple(rowbits)
        mob = self._mob.get(ck)
        if mob is None:
            mob = []
            for j in range(8 * n):
                f = [r[j] for r in rowbits]
                h = 1
                while h < len(f):
                    for i in range(0, len(f), 2 * h):
                        for t in range(i, i + h):
                            f[t + h] = bxor(f[t + h], f[t])
                    h *= 2
                mob.append([(m, c) for m, c in enumerate(f) if c])
            self._mob[ck] = mob
        out = []
        prods = {}
        for j in range(8 * n):
            acc = set()
            for m, c in mob[j]:
                pr = prods.get(m)
                if pr is None:
                    pr = 1
                    for t in range(k):
                        if (m >> t) & 1:
                            pr = band(pr, idx[t])
                    prods[m] = pr
                acc ^= POLYS[band(c, pr)]
            out.append(intern(frozenset(acc)))
        return mk(out)

    def memcmp(self, eng, st, a, b, n):
        if type(n) is not int:
            return NotImplemented
        ca, cb = eng.load_range(st, a, n), eng.load_range(st, b, n)
        diffs = []
        for x, y in zip(ca, cb):
            x, y = eng.join_bytes([x]), eng.join_bytes([y])
            diffs += [bxor(p, q) for p, q in zip(tobits(x, 8), tobits(y, 8))]
        if 1 in diffs:
            nz = 1
        else:
            diffs = sorted({d for d in diffs if d})
            nz = bnot(conj([bnot(d) for d in diffs])) if diffs else 0
        return mk([nz] + [0] * 31)

    # ----------------------------------------------------------- x86 intrinsics
    def to_block(self, v):
        """<2 x i64> -> 16 byte values"""
        out = []
        for e in v:
            out += self.eng.split(e, 8)
        return [self.eng.join_bytes([c]) for c in out]

    def from_block(self, b):
        return tuple(self.eng.join_bytes(b[8 * i:8 * i + 8]) for i in range(2))

    def intrinsic(self, eng, st, name, args, i):
        if name.startswith("llvm.x86.aesni."):
            op = name[len("llvm.x86.aesni."):]
            s = self.to_block(args[0])
            if op == "aesimc":
                return self.from_block(inv_mix_columns(s))
            if op == "aeskeygenassist":
                rc = args[1]
                x1, x3 = s[4:8], s[12:16]
                o = []
                for x in (x1, x3):
                    t = [sub_b(y) for y in x]
                    o += t
                    r = t[1:] + t[:1]
                    r[0] = xor_b(r[0], rc & 255)
                    o += r
                return self.from_block(o)
            k = self.to_block(args[1])
            if op in ("aesenc", "aesenclast"):
                t = [sub_b(y) for y in shift_rows(s)]
                if op == "aesenc":
                    t = mix_columns(t)
            elif op in ("aesdec", "aesdeclast"):
                t = [inv_sub_b(y) for y in inv_shift_rows(s)]
                if op == "aesdec":
                    t = inv_mix_columns(t)
            else:
                return NotImplemented
            return self.from_block(xor_block(t, k))
        if name == "llvm.x86.pclmulqdq":
            imm = args[2]
            a = tobits(args[0][imm & 1], 64)
            b = tobits(args[1][(imm >> 4) & 1], 64)
            acc = [set() for _ in range(128)]
            for x in range(64):
                if a[x] == 0:
                    continue
                for y in range(64):
                    if b[y] == 0:
                        continue
                    acc[x + y] ^= POLYS[band(a[x], b[y])]
            out = [intern(frozenset(s)) for s in acc]
            return (mk(out[:64]), mk(out[64:]))
        if name in ("llvm.x86.ssse3.pshuf.b.128", "llvm.x86.avx2.pshuf.b"):
            a, m = args
            n = len(a)
            out = []
            for k in range(n):
                c = m[k]
                if type(c) is not int:
                    c = tobits(c, 8)
                    lane = a[k & ~15:(k & ~15) + 16]
                    if all(type(x) is int for x in lane):
                        v = table_lookup(list(lane), 8, mk(c[:4]))
                    else:
                        sel = [tobits(x, 8) for x in lane]
                        for j in range(4):
                            sel = [tuple(bsel(c[j], y, x) for x, y in zip(sel[2 * q], sel[2 * q + 1])) for q in range(len(sel) // 2)]
                        v = mk(sel[0])
                    out.append(mk([band(x, bnot(c[7])) for x in tobits(v, 8)]))
                    continue
                out.append(0 if c & 0x80 else a[(k & ~15) + (c & 15)])
            return tuple(out)
        for pre in ("llvm.x86.sse2.", "llvm.x86.avx2."):
            for op, nm in (("lshr", "psrli."), ("shl", "pslli."), ("ashr", "psrai.")):
                if name.startswith(pre + nm):
                    w = i.ty.elt.w
                    c = args[1]
                    if type(c) is not int:
                        return NotImplemented
                    if c >= w and op != "ashr":
                        return (0,) * len(args[0])
                    return tuple(eng.binop(op, w, x, min(c, w - 1) if op == "ashr" else c) for x in args[0])
        if name.startswith("llvm.x86.avx2.gather.d.d"):
            src, base, idx, mask, sc = args
            out = []
            for k, x in enumerate(idx):
                mk_ = mask[k]
                if type(mk_) is not int or not mk_ >> 31:
                    return NotImplemented
                x64 = eng.sext(x, 32, 64)
                if type(x64) is int:
                    p = eng.padd(base, (x64 - (1 << 64) if x64 >> 63 else x64) * sc)
                else:
                    p = eng.gep_apply(base, 0, (self.gep_index(x64, 64, sc),))
                out.append(eng.load(st, p, i.ty.elt))
            return tuple(out)
        return NotImplemented


# ------------------------------------------------------------------ substitution of decided atoms
class Subst:
    """replace atoms (by polynomial id) inside normal forms, rebuilding nested atoms"""

    def __init__(self, mapping):
        self.amap = {}
        for poly, val in mapping.items():
            p = POLYS[poly]
            if len(p) == 1:
                m = MONOS[next(iter(p))]
                if len(m) == 1:
                    self.amap[next(iter(m))] = val
        self.pc = {}
        self.ac = {}

    def bit(self, b):
        if b <= 1 or not self.amap:
            return b
        r = self.pc.get(b)
        if r is None:
            acc = 0
            dirty = False
            for m in POLYS[b]:
                if any(self.atom(a) is not None for a in MONOS[m]):
                    dirty = True
                    break
            if not dirty:
                r = b
            else:
                keep = set()
                for m in POLYS[b]:
                    t = 1
                    for a in MONOS[m]:
                        v = self.atom(a)
                        t = band(t, atom_bit(ATOMS[a]) if v is None else v)
                    keep ^= POLYS[t]
                r = intern(frozenset(keep))
            self.pc[b] = r
        return r

    def atom(self, a):
        """None when unchanged, else replacement polynomial id"""
        if a in self.amap:
            return self.amap[a]
        if a in self.ac:
            return self.ac[a]
        d = ATOMS[a]
        r = None
        if d[0] == "sum":
            (w, terms, const), j = d[1], d[2]
            nt = []
            ch = False
            for t, c in terms:
                n = tuple(self.bit(x) for x in t)
                ch |= n != t
                nt.append((n, c))
            if ch:
                v = const
                for n, c in nt:
                    v = lin_add(w, v, mk(n), 1, c)
                r = tobits(v, w)[j]
        elif d[0] == "tab":
            idx = tuple(self.bit(x) for x in d[3])
            if idx != d[3]:
                tt = BASES[d[1]].elems[d[2]]
                tab = [(tt >> x) & 1 for x in range(1 << d[1])]
                r = tobits(table_lookup(tab, 1, mk(idx)), 1)[0]
        elif d[0] == "ult":
            n = tuple(tuple(self.bit(y) for y in x) for x in d[1:])
            if n != d[1:]:
                r = DOM.ult(n[0], n[1])
        elif d[0] == "prod":
            n = [self.bit(x) for x in d[1]]
            if set(n) != d[1]:
                r = conj(n)
        self.ac[a] = r
        return r

    def val(self, v):
        if isinstance(v, Bits):
            n = tuple(self.bit(x) for x in v.b)
            if n == v.b:
                return v
            if type(v) is AutoBits and any(x > 1 for x in n):
                return AutoBits(n)
            return mk(n)
        if isinstance(v, Sel):
            c = self.val(v.c)
            if type(c) is int:
                return self.val(v.a if c else v.b)
            a, b = self.val(v.a), self.val(v.b)
            return Sel(c, a, b)
        if isinstance(v, Part):
            w = self.val(v.v)
            if w is v.v:
                return v
            if type(w) is int:
                return (w >> (8 * v.i)) & 255
            if isinstance(w, Ptr) and w.obj is None and not w.sym and w.off == 0:
                return 0
            return Part(w, v.i, v.n)
        return v


DOM = AnfDomain()


def settle(eng, st, forget=True):
    """apply the literals decided on every trace of st to its memory"""
    common = None
    for t in st.paths:
        s = set(t)
        common = s if common is None else common & s
    sub = Subst({k: int(p) for k, p in common or ()})
    if sub.amap:
        for key, o in list(st.mem.items()):
            if key.startswith("@") and o.ro:
                continue
            ch = {off: n for off, c in o.cells.items() for n in (sub.val(c),) if n is not c}
            if ch:
                o = eng.wobj(st, key)
                o.cells.update(ch)
    if forget:
        st.paths = frozenset([()])
    return st
