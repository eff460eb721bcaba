"""Shared pieces of the checks over the integer domain (C09, C10): operand layouts, readers, engine setup."""
from .core import Result
from .ir import AnalysisError
from .engine import Engine, State, Ptr, Sel, Part, Finding, UNDEF
import re
from . import intd
from .intd import *
from .util import stats, real_where

MODS = {}
NS = {"common": "number::internal::common::", "x64": "number::internal::x64::"}
W = {"common": 32, "x64": 64}


def words_obj(eng, st, name, vals, w):
    n = w // 8
    k = eng.new_obj(st, name, n * len(vals), "input")
    o = st.mem[k]
    for i, v in enumerate(vals):
        for j in range(n):
            o.cells[i * n + j] = (v >> (8 * j)) & 255 if type(v) is int else Part(v, j, n)
    return Ptr(k, 0)


def syms(name, n, w):
    return [inp_word("%s%d" % (name, i), w) for i in range(n)]


def rd(eng, st, p, n, w):
    out = []
    for i in range(n):
        cells = [eng.load_cell(st, eng.obj(st, p.obj), p.off + i * w // 8 + j) for j in range(w // 8)]
        out.append(eng.join_bytes(cells))
    return out


def begin(back):
    intd.reset(W[back])
    return MODS["simd" if back == "x64" else "portable"]


def where(eng, f):
    return real_where(eng, f)


def res(key, eng, f, goals, base=(), shallow=False):
    bad = prove(list(base), [], goals, shallow)
    return Result(key, bad is None, where(eng, f), bad or "", stats(eng))


def svalue(r, w=32):
    """signed value of an int result as a polynomial"""
    return P(IntDomain.signed(DOM, r, w)) if type(r) is not int else pconst(r - (1 << w) if r >> (w - 1) else r)


DOM = None


def engine(m):
    global DOM
    DOM = IntDomain(intd.LIMB[0])
    eng = Engine(m, DOM)
    return eng


ALIAS2 = [("", "oab"), (" (result is the first operand)", "aab"), (" (result is the second operand)", "bab"), (" (all the same)", "aaa"), (" (equal operands)", "oaa")]
ALIAS1 = [("", "oa"), (" (in place)", "aa")]


def layout(eng, st, al, n, w, on=None):
    """pointers for result and operands according to the aliasing word"""
    ps = {}
    for c in al:
        if c in ps:
            continue
        if c == "o":
            ps[c] = Ptr(eng.new_obj(st, "out", (on or n) * w // 8), 0)
        else:
            ps[c] = words_obj(eng, st, c, syms(c, n, w), w)
    return [ps[c] for c in al]


def kept(key, eng, st, al, ps, n, w, f):
    r = []
    for c, p in zip(al[1:], ps[1:]):
        if p.obj != ps[0].obj:
            g = rd(eng, st, p, n, w)
            ok = all(x == y for x, y in zip(g, syms(c, n, w)))
            r.append(Result(key + ": operand %s kept" % c, ok, where(eng, f), "operand is modified"))
    return r


def num(c, n, w):
    return value(syms(c, n, w), w)




def wr(eng, st, p, vals, w):
    cells = []
    for v in vals:
        n = w // 8
        cells += [(v >> (8 * j)) & 255 if type(v) is int else Part(v, j, n) for j in range(n)]
    eng.store_cells(st, p, cells)


def words_of(v, w, n):
    """words of a value that is named as a whole, so that reading all of them back gives the name again"""
    if type(v) is int:
        return [(v >> (w * i)) & ((1 << w) - 1) for i in range(n)]
    lo, hi = R(v)
    p = P(v)
    if len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1:
        X = list(p)[0][0]
    else:
        k = ("big", key(p))
        if k not in MEMO:
            MEMO[k] = new_atom("W", lo, hi, (p, 0, {}))
        X = MEMO[k]
    k = ("slices", X, w, n)
    if k not in MEMO:
        out = []
        v = IntV(patom(X), lo, hi)
        for i in range(n):
            x, v = split(v, w)
            if type(x) is int or type(v) is int and v == 0 and i + 1 < n:
                out = None
                break
            a = new_atom("W", *R(x), (P(x), 0, {}))
            MEMO[("slice", a)] = (X, i, n, w)
            out.append(IntV(patom(a)))
        MEMO[k] = out
    if MEMO[k] is None:
        out = []
        for _ in range(n):
            lo, v = split(v, w)
            out.append(lo)
        return out
    return MEMO[k]


def rdv(eng, st, p, n, w):
    for x in (ws := rd(eng, st, p, n, w)):
        if x is UNDEF or isinstance(x, Sel):
            raise Finding("undef", "arithmetic on an uninitialised word", eng.where())
    per = []
    rest = {}
    for i, x in enumerate(ws):
        g = {}
        for m, c in P(x).items():
            sl = [a for a in m if ("slice", a) in MEMO]
            s = MEMO[("slice", sl[0])] if len(sl) == 1 else None
            if s and s[1:] == (i, n, w):
                mm = tuple(a for a in m if a != sl[0])
                g.setdefault(s[0], {})[mm] = c
            else:
                rest = padd(rest, {m: c}, 1 << (w * i))
        per.append(g)
    for X in {X for g in per for X in g}:
        if all(g.get(X) == per[0].get(X) for g in per):
            rest = padd(rest, pmul(per[0][X], patom(X)))
        else:
            for i, g in enumerate(per):
                if X in g:
                    rest = padd(rest, pmul(g[X], P(MEMO[("slices", X, w, n)][i])), 1 << (w * i))
    return rest


PRODUCTS = []


def bigint(eng, back, fresh=None):
    """the 256-bit primitives by what C09 establishes about them, instead of limb by limb.
    fresh(A, B): products A*B for which it is true are given words of their own (recorded in PRODUCTS)"""
    PRODUCTS.clear()
    w = W[back]
    N = 256 // w
    T = 1 << 256

    def bv(p):
        return mkv(p, 0, T - 1)

    def ret(c, v):
        return mk_ite(c if type(c) is int else c, v, 0)

    def arith(name, wide=False):
        def h(eng, st, f, args):
            vs = [rdv(eng, st, p, N, w) for p in args[1:]]
            if wide and any(p.obj == args[0].obj for p in args[1:]):
                return NotImplemented
            A = vs[0]
            if name in ("mul", "sqr"):
                B = vs[-1]
                if fresh and fresh(A, B):
                    ws = syms("t%d_" % len(PRODUCTS), 2 * N, w)
                    PRODUCTS.append((key(pmul(A, B)), value(ws, w)))
                    wr(eng, st, args[0], ws, w)
                    return None
                v = mkv(pmul(A, B), 0, (T - 1) ** 2)
                wr(eng, st, args[0], words_of(v, w, 2 * N), w)
                return None
            if name == "sub":
                s = mkv(padd(A, vs[1], -1), 1 - T, T - 1) if padd(A, vs[1], -1) else 0
                b = sign(s)
                wr(eng, st, args[0], words_of(bv(padd(P(s), P(b), T)), w, N), w)
                return mk_ite(b, 0xffffffff, 0)
            p, hi = {"add": lambda: (padd(A, vs[1]), 2 * T - 2), "dbl": lambda: (pscale(A, 2), 2 * T - 2), "tpl": lambda: (pscale(A, 3), 3 * T - 3)}[name]()
            # the carry as a sum of thresholds
            c = {}
            for k in range(1, (hi >> 256) + 1):
                c = padd(c, padd(pconst(1), neg(padd(p, pconst(-k * T))), -1))
            lo = bv(padd(p, c, -T))
            c = mkv(c, 0, hi >> 256) if c and list(c) != [()] else c.get((), 0)
            wr(eng, st, args[0], words_of(lo, w, N), w)
            return c
        return h

    def sign(s):
        """[s < 0]"""
        if type(s) is int:
            return int(s < 0)
        p = neg(P(s), *R(s))
        return int(p.get((), 0)) if not p or list(p) == [()] else mkv(p, 0, 1)

    def cmp(eng, st, f, args):
        A, B = (rdv(eng, st, p, N, w) for p in args)
        D = padd(A, B, -1)
        lt = sign(mkv(D) if D else 0)
        gt = sign(mkv(pscale(D, -1)) if D else 0)
        return mk_ite(gt, 1, mk_ite(lt, 0xffffffff, 0))

    def eqz(eng, st, f, args):
        vs = [rdv(eng, st, p, N, w) for p in args]
        D = padd(vs[0], vs[1], -1) if len(vs) == 2 else vs[0]
        p = eq0(D) if D else pconst(1)
        return int(p.get((), 0)) if not p or list(p) == [()] else mkv(p, 0, 1)
    ns = "^" + re.escape(NS[back]) + "uint256_"
    for nm, k in (("add_carry", "add"), ("sub_borrow", "sub"), ("dbl_carry", "dbl"), ("tpl_carry", "tpl")):
        eng.hook(ns + nm + r"\(", arith(k))
    eng.hook(ns + r"mul\(", arith("mul", True))
    eng.hook(ns + r"sqr\(", arith("sqr", True))
    eng.hook(ns + r"cmp\(", cmp)
    eng.hook(ns + r"equal(_zero)?\(", eqz)
