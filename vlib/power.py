"""Powering in the 12-dimensional extension: the value held by a field element is base^v with v an integer polynomial in the
bits of the exponent; products add, squarings double, conditional copies and table look-ups merge by the bits they depend on."""
import itertools

from . import anf
from .anf import atom_bit, mk, tobits, ATOMS, MONOS, POLYS, Subst, Bits
from .core import Result
from .engine import Engine, State, Ptr, Sel, Part, Finding, UNDEF
from .ir import AnalysisError
from .fe import G, parts
from .scalar import GDomain, gadd, padd, pmul, pscale, pshow, bitpoly
from .util import stats, real_where

SIZE = 384
_base = {}


def base_atoms(b):
    """basic atoms a bit depends on, through the derived ones"""
    r = _base.get(b)
    if r is None:
        r = set()
        for m in POLYS[b]:
            for a in MONOS[m]:
                d = ATOMS[a]
                if d[0] == "sum":
                    for t, c in d[1][1]:
                        for x in t:
                            r |= base_atoms(x)
                elif d[0] == "ult":
                    for t in d[1:]:
                        for x in t:
                            r |= base_atoms(x)
                elif d[0] == "tab":
                    for x in d[3]:
                        r |= base_atoms(x)
                elif d[0] == "prod":
                    for x in d[1]:
                        r |= base_atoms(x)
                else:
                    r.add(a)
        _base[b] = r = frozenset(r)
    return r


def leaves(p):
    """bits a pointer depends on"""
    if isinstance(p, Sel):
        return set(tobits(p.c, 1)) | leaves(p.a) | leaves(p.b)
    r = set()
    if isinstance(p, Ptr):
        for v, w, s in p.sym:
            r |= set(tobits(v, w))
    return r


def at(p, sub):
    """the pointer under an assignment"""
    if isinstance(p, Sel):
        c = sub.val(p.c)
        if type(c) is not int:
            raise AnalysisError("pointer condition not decided")
        return at(p.a if c & 1 else p.b, sub)
    off = p.off
    for v, w, s in p.sym:
        x = sub.val(v)
        if type(x) is not int:
            raise AnalysisError("pointer offset not decided")
        x &= (1 << w) - 1
        off += s * (x - (1 << w) if x >> (w - 1) else x)
    return Ptr(p.obj, off)


class PDomain(GDomain):
    """pointers with symbolic offsets are kept; only the hooked operations resolve them"""


def resolve(eng, st, p, rd):
    """[(assignment indicator polynomial, value)] of an object read through a possibly symbolic pointer"""
    bs = leaves(p)
    if not bs:
        return rd(p)
    S = sorted(set().union(*[base_atoms(b) for b in bs]))
    if len(S) > 8:
        raise AnalysisError("table index depends on %d bits at %s" % (len(S), eng.where()))
    tot = {}
    for val in itertools.product((0, 1), repeat=len(S)):
        sub = Subst({atom_bit(ATOMS[a]): v for a, v in zip(S, val)})
        if not any(possible(eng, t, sub) for t in st.paths):
            continue
        g = rd(at(p, sub))
        ind = {frozenset(): 1}
        for a, v in zip(S, val):
            x = {frozenset([a]): 1}
            ind = pmul(ind, x if v else padd({frozenset(): 1}, x, -1))
        tot = padd(tot, pmul(ind, g.flat()))
    return G(tot)


def possible(eng, trace, sub):
    for k, pol in trace:
        v = sub.val(eng.condvals[k])
        if type(v) is int and (v & 1) != int(pol):
            return False
    return True


class Power:
    def __init__(self, m, zero_base):
        self.m = m
        self.eng = e = Engine(m, PDomain())
        self.st = State()
        self.zero = zero_base
        P = r"^sm9::internal::sm9_fp12_"

        def op(name, n, fn):
            def h(eng, st, f, a):
                self.put(st, a[0], fn(*[self.get(st, p) for p in a[1:1 + n]]))
            e.hook(P + name + r"\(", h)
        op("sqr", 1, lambda a: self.chk(a) or G({}, a, 2))
        op("mul", 2, lambda a, b: self.chk(a, b) or gadd(a, b))
        op("cpy", 1, lambda a: a)
        op("set_one", 0, lambda: G({}))
        op("set_zero", 0, lambda: "zero")
        e.hook(P + r"equal_zero\(", lambda eng, st, f, a: int(self.get(st, a[0]) == "zero"))

        def one(eng, st, f, a):
            g = self.get(st, a[0])
            if g == "zero":
                return 0
            if g.flat() == {}:
                return 1
            return NotImplemented
        e.hook(P + r"equal_one\(", one)

    def chk(self, *a):
        return "zero" if "zero" in a else None

    def get(self, st, p):
        def rd(q):
            o = st.mem.get(q.obj)
            if o is None or q.off < 0 or q.off + SIZE > o.size:
                raise Finding("bounds", "table element at offset %d of %s (%s bytes) used" % (q.off, q.obj, o and o.size), self.eng.where())
            v = self.eng.join_bytes(self.eng.load_bytes(st, q, SIZE))
            if isinstance(v, Part) and isinstance(v.v, tuple):
                return "zero"
            if v != "zero" and not isinstance(v, G):
                raise Finding("undef", "something that is not a field element of the computation is used as one", self.eng.where())
            return v
        return resolve(self.eng, st, p, rd)

    def put(self, st, p, g):
        if g == "zero":
            g = ZERO
        self.eng.store_cells(st, p, parts(g, SIZE))


ZERO = "zero"


def t_pow(m, hs):
    """exponents with leading bit in hs (None: zero, "z": zero base)"""
    f = m.fn("sm9::internal::sm9_fp12_pow")
    rs = []
    for h in hs:
        for inplace in ((False, True) if h in (255, "z") else (False,)):
            P = Power(m, h == "z")
            ebits = [0] * 256 if h is None else [atom_bit(("e", i)) if h == "z" or i < h else int(i == h) for i in range(256)]
            A = Ptr(P.eng.new_obj(P.st, "a", SIZE, "input"), 0)
            E = Ptr(P.eng.new_obj(P.st, "e", 32, "input"), 0)
            P.put(P.st, A, "zero" if h == "z" else G({frozenset(): 1}))
            R = A if inplace else Ptr(P.eng.new_obj(P.st, "r", SIZE, "input"), 0)
            for i in range(32):
                P.st.mem[E.obj].cells[i] = mk(tuple(ebits[8 * (31 - i):8 * (31 - i) + 8]))
            key = "fp12 power, %s%s" % ("base zero" if h == "z" else "exponent zero" if h is None else "leading exponent bit %d" % h, ", in place" if inplace else "")
            try:
                outs = P.eng.call(P.st, f, [R, A, E])
                if len(outs) != 1 or outs[0][0] != "ret":
                    raise AnalysisError("%d outcomes" % len(outs))
                g = P.get(outs[0][1], R)
                want = {}
                for i in range(256):
                    want = padd(want, pscale(bitpoly(ebits[i]), 1 << i))
                ok = g == "zero" if h == "z" else g != "zero" and g.flat() == want
                rs.append(Result(key, ok, real_where(P.eng, f), "" if ok else "computes %s" % (g if g == "zero" else "the power %s" % pshow(g.flat())), stats(P.eng)))
            except Finding as e:
                rs.append(Result(key, False, e.where, "%s: %s" % (e.kind, e.msg)))
    return rs


def jobs(m):
    return [(t_pow, (m, [None, "z"]))] + [(t_pow, (m, list(range(i, i + 16)))) for i in range(0, 256, 16)]
