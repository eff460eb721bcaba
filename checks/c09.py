import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr, UNDEF, Finding, Sel, Part
from vlib import intd
from vlib.intd import *
from vlib.util import ASSUME, stats, real_where
from vlib.intu import *
from vlib.intu import MODS, NS, W

def arith2(back, op, al, nm, n=None, cin=None):
    m = begin(back)
    w = W[back]
    N = n if n is not None else 256 // w
    eng = engine(m)
    st = State()
    fname = {"add": "uint256_add_carry", "sub": "uint256_sub_borrow", "mul": "uint256_mul"}[op] if n is None else \
        {"add": "mpz_add_carry", "sub": "mpz_sub_borrow", "mul": "mpz_mul"}[op]
    f = m.fn(NS[back] + fname)
    on = 2 * N if op == "mul" else N
    ps = layout(eng, st, al, N, w, on)
    args = list(ps)
    c = {}
    if n is not None and op != "mul":
        if cin:
            cv = inp_word("cin", 1)
            c = P(cv) if op == "add" else pscale(P(cv), -1)
            args.append(cv if op == "add" else mkv(padd(pconst(0), pscale(P(cv), (1 << 32) - 1)), 0, (1 << 32) - 1))
        else:
            args.append(0)
    if n is not None:
        args.append(N)
    st, r = eng.call1(st, f, args)
    A, B = num(al[1], N, w), num(al[2], N, w)
    out = value(rd(eng, st, ps[0], on, w), w)
    key = "%s %s%s%s" % (back, fname, "" if n is None else " of %d limbs%s" % (n, ", incoming carry" if cin else ""), nm)
    if op == "mul":
        g = [("zero", padd(out, pmul(A, B), -1))]
    else:
        rv = svalue(r)
        s = 1 if op == "add" else -1
        g = [("zero", padd(padd(padd(padd(out, pscale(rv, 1 << (w * N))), A, -1), B, -s), c, -1))] if N else []
    return [res(key, eng, f, g)] + kept(key, eng, st, al, ps, N, w, f)


def arith1(back, op, al, nm):
    m = begin(back)
    w = W[back]
    N = 256 // w
    eng = engine(m)
    st = State()
    f = m.fn(NS[back] + {"dbl": "uint256_dbl_carry", "tpl": "uint256_tpl_carry", "sqr": "uint256_sqr", "cpy": "uint256_cpy"}[op])
    on = 2 * N if op == "sqr" else N
    ps = layout(eng, st, al, N, w, on)
    st, r = eng.call1(st, f, ps)
    A = num("a", N, w)
    out = value(rd(eng, st, ps[0], on, w), w)
    key = "%s %s%s" % (back, f.dem.split("(")[0].split("::")[-1], nm)
    want = {"dbl": lambda: pscale(A, 2), "tpl": lambda: pscale(A, 3), "sqr": lambda: pmul(A, A), "cpy": lambda: A}[op]()
    if op in ("dbl", "tpl"):
        out = padd(out, svalue(r), 1 << 256)
    return [res(key, eng, f, [("zero", padd(out, want, -1))])] + kept(key, eng, st, al, ps, N, w, f)


def word(back, op, al, nm):
    m = begin(back)
    w = W[back]
    N = 256 // w
    eng = engine(m)
    st = State()
    sfx = "uint%d" % w
    f = m.fn(NS[back] + {"add": "uint256_add_carry_", "sub": "uint256_sub_borrow_", "mul": "uint256_mul_carry_", "div": "uint256_div_"}[op] + sfx)
    ps = layout(eng, st, al, N, w)
    k = inp_word("k", w)
    if op == "div":
        k = inp_word("k-1", w)
        k = mkv(padd(P(k), pconst(1)), 1, 1 << w)     # any divisor except zero
        EXTRA_FITS.add(k.k())
    st, r = eng.call1(st, f, ps + [k])
    A = num("a", N, w)
    out = value(rd(eng, st, ps[0], N, w), w)
    key = "%s %s%s" % (back, f.dem.split("(")[0].split("::")[-1], nm)
    if op == "add":
        g = [("zero", padd(padd(padd(out, svalue(r), 1 << 256), A, -1), P(k), -1))]
    elif op == "sub":
        g = [("zero", padd(padd(padd(out, svalue(r), 1 << 256), A, -1), P(k)))]
    elif op == "mul":
        g = [("zero", padd(padd(out, P(r), 1 << 256), pmul(A, P(k)), -1))]
    else:
        g = [("zero", padd(padd(pmul(out, P(k)), P(r)), A, -1)),
             ("nonneg", padd(padd(P(k), P(r), -1), pconst(-1))), ("nonneg", P(r))]
    base = []
    if op == "div":
        # remainder < divisor holds for the division instructions themselves
        base = intd.div_facts()
    return [res(key, eng, f, g, base)] + kept(key, eng, st, al, ps, N, w, f)


def compare(back, op, al, nm, n=None):
    m = begin(back)
    w = W[back]
    N = n if n is not None else 256 // w
    eng = engine(m)
    st = State()
    fname = {"cmp": "uint256_cmp" if n is None else "mpz_cmp", "cmpw": "uint256_cmp_uint%d" % w, "eq": "uint256_equal", "z": "uint256_equal_zero",
             "one": "uint256_equal_one"}[op]
    f = m.fn(NS[back] + fname)
    ps = layout(eng, st, al, N, w)
    args = list(ps)
    A = num(al[0], N, w)
    if op == "cmpw":
        k = inp_word("k", w)
        args.append(k)
        B = P(k)
    elif op in ("cmp", "eq"):
        B = num(al[1], N, w)
    else:
        B = {} if op == "z" else pconst(1)
    if n is not None:
        args.append(n)
    st, r = eng.call1(st, f, args)
    key = "%s %s%s%s" % (back, fname, "" if n is None else " of %d limbs" % n, nm)
    D = padd(A, B, -1)
    if op in ("cmp", "cmpw"):
        # result is the sign of A - B, on every case
        rv = svalue(r)
        lt = neg(D) if D else {}
        gt = neg(pscale(D, -1)) if D else {}
        one = lambda p: patom(list(p)[0][0]) if False else p
        bad = None
        for lits, want in (([(lt, True)], -1), ([(gt, True)], 1), ([(lt, False), (gt, False)], 0)):
            lits = [(p, v) for p, v in lits]
            if any((not p or list(p) == [()]) and bool(p) != v for p, v in lits):
                continue
            b = prove([], [(p, v) for p, v in lits if p and list(p) != [()]], [("zero", padd(rv, pconst(-want)))])
            bad = bad or (b and "result is not %d although the difference is %s: %s" % (want, {-1: "negative", 1: "positive", 0: "zero"}[want], b))
        return [Result(key, bad is None, where(eng, f), bad or "", stats(eng))]
    want = eq0(D)
    bad = None
    rv = P(intd.low_bits(r, 8)) if type(r) is not int else pconst(r & 1)
    d = padd(rv, want, -1)
    if d:
        bad = prove([], [], [("zero", d)])
    return [Result(key, bad is None, where(eng, f), bad or "", stats(eng))]


def setters(back):
    m = begin(back)
    w = W[back]
    N = 256 // w
    out = []
    for fname, args, want in (("uint256_set_zero", [], {}), ("uint256_set_one", [], pconst(1)), ("uint256_set_uint%d" % w, [inp_word("k", w)], P(inp_word("k", w)))):
        eng = engine(m)
        st = State()
        f = m.fn(NS[back] + fname)
        o = Ptr(eng.new_obj(st, "out", 32), 0)
        st, _ = eng.call1(st, f, [o] + args)
        out.append(res("%s %s" % (back, fname), eng, f, [("zero", padd(value(rd(eng, st, o, N, w), w), want, -1))]))
    return out


def conv(back, n=None):
    """big-endian byte strings"""
    m = begin(back)
    w = W[back]
    N = n if n is not None else 256 // w
    pre = "uint256_" if n is None else "mpz_"
    sz = "" if n is None else " of %d limbs" % n
    out = []
    nb = N * w // 8
    eng = engine(m)
    st = State()
    f = m.fn(NS[back] + pre + "from_bytes")
    bs = [inp_word("b%d" % i, 8) for i in range(nb)]
    src = words_obj(eng, st, "bytes", bs, 8)
    dst = Ptr(eng.new_obj(st, "out", nb), 0)
    st, _ = eng.call1(st, f, [dst, src] + ([n] if n is not None else []))
    want = {}
    for b in bs:
        want = padd(pscale(want, 256), P(b))
    out.append(res("%s %sfrom_bytes%s" % (back, pre, sz), eng, f, [("zero", padd(value(rd(eng, st, dst, N, w), w), want, -1))] if N else []))
    eng = engine(m)
    st = State()
    f = m.fn(NS[back] + pre + "to_bytes")
    src = words_obj(eng, st, "a", syms("a", N, w), w)
    dst = Ptr(eng.new_obj(st, "out", nb), 0)
    st, _ = eng.call1(st, f, [dst, src] + ([n] if n is not None else []))
    got = {}
    for b in rd(eng, st, dst, nb, 8):
        if R(b)[0] < 0 or R(b)[1] > 255:
            raise AnalysisError("byte out of range")
        got = padd(pscale(got, 256), P(b))
    out.append(res("%s %sto_bytes%s" % (back, pre, sz), eng, f, [("zero", padd(got, value(syms("a", N, w), w), -1))] if N else []))
    if n is not None:
        f = m.fn(NS[back] + "mpz_cpy")
        for nm, al in ALIAS1:
            eng = engine(m)
            st = State()
            ps = layout(eng, st, al, N, w)
            st, _ = eng.call1(st, f, ps + [n])
            ok = rd(eng, st, ps[0], N, w) == syms("a", N, w)
            out.append(Result("%s mpz_cpy%s%s" % (back, sz, nm), ok, where(eng, f), "limbs differ"))
    return out


def bittest(back):
    m = begin(back)
    w = W[back]
    N = 256 // w
    f = m.fn(NS[back] + "uint256_bittest")
    bad = None
    for i in range(256):
        eng = engine(m)
        st = State()
        a = words_obj(eng, st, "a", syms("a", N, w), w)
        st, r = eng.call1(st, f, [a, i])
        x = syms("a", N, w)[i // w]
        want = low_bits(shr(x, i % w), 1)
        r = low_bits(r, 1)
        if r != want and padd(P(r), P(want), -1) and prove([], [], [("zero", padd(P(r), P(want), -1))]):
            bad = "bit %d: %r instead of %r" % (i, r, want)
    return [Result("%s uint256_bittest" % back, bad is None, where(eng, f), bad or "", stats(eng))]


def main():
    ck = Check("C09", "other", "identity of the limbs written (with carry) and the integer result; result of comparisons equal to the sign of the difference", 150, ASSUME)
    MODS["portable"] = build_module("portable", [])
    MODS["simd"] = build_module("simd", [])
    jobs = []
    quick = ck.tier == "quick"
    for back in ("common", "x64"):
        for nm, al in ALIAS2:
            jobs += [(arith2, (back, "add", al, nm)), (arith2, (back, "sub", al, nm))]
            if al[0] == "o":
                jobs += [(arith2, (back, "mul", al, nm))]
        for nm, al in ALIAS1:
            jobs += [(arith1, (back, op, al, nm)) for op in ("dbl", "tpl", "cpy")]
            jobs += [(word, (back, op, al, nm)) for op in ("add", "sub", "mul", "div")]
        jobs += [(arith1, (back, "sqr", "oa", ""))]
        for nm, al in (("", "ab"), (" (same object)", "aa")):
            jobs += [(compare, (back, "cmp", al, nm)), (compare, (back, "eq", al, nm))]
        for op in ("z", "one", "cmpw"):
            jobs += [(compare, (back, op, "a", ""))]
        jobs += [(setters, (back,)), (conv, (back,)), (bittest, (back,))]
        for n in (0, 1, 2, 3, 4, 5, 8) if quick else range(0, 17):
            for nm, al in ALIAS2:
                for cin in (False, True):
                    jobs += [(arith2, (back, "add", al, nm, n, cin)), (arith2, (back, "sub", al, nm, n, cin))]
                if al[0] == "o" and n <= 8:
                    jobs += [(arith2, (back, "mul", al, nm, n))]
            jobs += [(compare, (back, "cmp", "ab", "", n)), (conv, (back, n))]
    ck.run(jobs)
    ck.finish()


main()
