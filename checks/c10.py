import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr, UNDEF, Finding, Sel, Part
from vlib import intd, modred
from vlib.intd import *
from vlib.util import ASSUME, stats, real_where
from vlib.intu import *
from vlib.intu import MODS, NS, W

MODULUS = {
    "SM2 field": 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF,
    "SM2 order": 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123,
    "SM9 field": 0xB640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D,
    "SM9 order": 0xB640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25}
RR = 1 << 256
LENS = (0, 1, 20, 31, 32, 33, 40, 48, 64, 65, 100)


def gint(m, op):
    g = m.globals.get(op[1]) if op[0] == "g" else None
    if not g or not g["init"] or not g["const"] or g["rel"] or op[2] + 32 > g["size"]:
        return None
    return int.from_bytes(bytes.fromhex(g["data"])[op[2]:op[2] + 32], "little")


def contexts(m, strange=None):
    """the constant Montgomery contexts of the library, by modulus: name -> [global]"""
    out = {}
    for g in m.globals.values():
        if g["size"] == 40 and g["init"] and [r[0] for r in g["rel"]] == [0, 8, 16, 24]:
            p = gint(m, g["rel"][0][1])
            for n, M in MODULUS.items():
                if p == M:
                    out.setdefault(n, []).append(g["name"])
            if strange is not None and p is not None and p not in MODULUS.values():
                strange.append((g, p))
    for n in MODULUS:
        if n not in out and not strange:
            raise AnalysisError("no Montgomery context for the " + n)
    return {n: sorted(v) for n, v in out.items()}


def context_constants(back):
    m, w, N = setup(back)
    r = []
    strange = []
    byname = contexts(m, strange)
    lost = [n for n in MODULUS if n not in byname]
    if lost:
        for g, p in strange:
            r.append(Result("%s context of an unknown modulus" % back, False, "%s:%s" % (g["file"].replace("/repo/", ""), g["line"]),
                            "the modulus of this Montgomery context is %#x, and no context has the modulus of the %s" % (p, ", ".join(lost))))
    for n, gs in byname.items():
        M = MODULUS[n]
        for gn in gs:
            g = m.globals[gn]
            v = [gint(m, x[1]) for x in g["rel"]]
            ninv = int.from_bytes(bytes.fromhex(g["data"])[32:32 + w // 8], "little")
            wh = "%s:%s" % (g["file"].replace("/repo/", ""), g["line"])
            for nm, got, want in (("P", v[0], M), ("P-2", v[1], M - 2), ("R mod P", v[2], RR % M), ("R^2 mod P", v[3], RR * RR % M),
                                  ("-1/P mod the word", ninv, -pow(M, -1, 1 << w) % (1 << w))):
                r.append(Result("%s context constant %s of the %s" % (back, nm, n), got == want, wh, "is %s instead of %#x" % (got if got is None else hex(got), want)))
    return r


def setup(back):
    m = begin(back)
    w = W[back]
    return m, w, 256 // w


def canon(goal_poly, out, M):
    """out = goal (mod M) and 0 <= out < M"""
    return [("cong", padd(out, goal_poly, -1), M), ("nonneg", out), ("nonneg", padd(pconst(M - 1), out, -1))]


def op(back, cname, fn, al, nm):
    m, w, N = setup(back)
    M = MODULUS[cname]
    eng = engine(m)
    st = State()
    f = m.fn(NS[back] + "mont256_" + fn)
    bigint(eng, back, (lambda a, b: True) if fn in ("mul", "sqr") else None)
    ctx = eng.global_ptr(st, contexts(m)[cname][0], 0)
    ps = layout(eng, st, al, N, w)
    A = num(al[1], N, w)
    B = num(al[2], N, w) if len(al) > 2 else None
    top = pconst(M - 1)
    base = [padd(top, num(c, N, w), -1) for c in sorted(set(al) - {"o"})]
    eng.d.facts = list(base)
    eng.d.refine = fn == "tpl"
    intd.TIGHT[0] = fn in ("mul", "sqr")
    st, _ = eng.call1(st, f, [ctx] + ps)
    out = value(rd(eng, st, ps[0], N, w), w)
    key = "%s mont256_%s modulo the %s%s" % (back, fn, cname, nm)
    if fn in ("mul", "sqr"):
        B = A if B is None else B
        T = pmul(A, B)
        for k, t in PRODUCTS:
            if k == intd.key(T):
                T = t       # the product under a name of its own
                break
        base.append(padd(pconst((M - 1) ** 2), T, -1))
        # the words are words
        base += [out, padd(pconst(RR - 1), out, -1)]
        g = canon({}, out, M)
        g[0] = ("cong", padd(pscale(out, RR), T, -1), M)
    elif fn == "div2":
        g = canon({}, out, M)
        g[0] = ("cong", padd(pscale(out, 2), A, -1), M)
    else:
        want = {"add": lambda: padd(A, B), "sub": lambda: padd(A, B, -1), "dbl": lambda: pscale(A, 2), "tpl": lambda: pscale(A, 3),
                "neg": lambda: pscale(A, -1), "cpy": lambda: A}[fn]()
        g = canon(want, out, M)
    return [res(key, eng, f, g, base, fn in ("mul", "sqr"))] + kept(key, eng, st, al, ps, N, w, f)


def modop(back, name, M, fn, al, nm):
    """modular sum and difference with an explicit divisor"""
    m, w, N = setup(back)
    eng = engine(m)
    st = State()
    f = m.fn(NS[back] + "uint256_mod_" + fn)
    bigint(eng, back, None)
    eng.d.refine = False
    intd.TIGHT[0] = False
    ps = layout(eng, st, al, N, w)
    div = Ptr(eng.new_obj(st, "divisor", 32), 0)
    eng.store_cells(st, div, list(M.to_bytes(32, "little")))
    A, B = num(al[1], N, w), num(al[2], N, w)
    base = [padd(pconst(M - 1), num(c, N, w), -1) for c in sorted(set(al) - {"o"})]
    eng.d.facts = list(base)
    st, _ = eng.call1(st, f, ps + [div])
    out = value(rd(eng, st, ps[0], N, w), w)
    key = "%s uint256_mod_%s modulo the %s%s" % (back, fn, name, nm)
    return [res(key, eng, f, canon(padd(A, B, 1 if fn == "add" else -1), out, M), base, False)] + kept(key, eng, st, al, ps, N, w, f)


def reduction(back, name, M, n, ctx):
    m = begin(back)
    return modred.reduce_bytes(m, back, name, M, n, contexts(m)[name][0] if ctx else None)


def begin_op(back, cname):
    m, w, N = setup(back)
    eng = engine(m)
    st = State()
    intd.TIGHT[0] = True
    bigint(eng, back, lambda a, b: True)
    return m, w, N, MODULUS[cname], eng, st, eng.global_ptr(st, contexts(m)[cname][0], 0)


def product(T, what):
    for k, t in PRODUCTS:
        if k == intd.key(T):
            return t
    return T


def convert(back, cname):
    """setting constants, byte conversions, tests"""
    out = []
    k = " modulo the " + cname
    for fn, want in (("set_zero", 0), ("set_one", 1)):
        m, w, N, M, eng, st, ctx = begin_op(back, cname)
        f = m.fn(NS[back] + "mont256_" + fn)
        o = Ptr(eng.new_obj(st, "out", 32), 0)
        st, _ = eng.call1(st, f, [ctx, o])
        out.append(res("%s mont256_%s%s" % (back, fn, k), eng, f, [("zero", padd(value(rd(eng, st, o, N, w), w), pconst(want * RR % M), -1))]))
    m, w, N, M, eng, st, ctx = begin_op(back, cname)
    R2 = RR * RR % M
    for fn in ("set_uint32", "set_uint64"):
        fs = [g for g in m.funcs.values() if g.dem.startswith(NS[back] + "mont256_" + fn + "(")]
        for f in fs:
            m, w, N, M, eng, st, ctx = begin_op(back, cname)
            o = Ptr(eng.new_obj(st, "out", 32), 0)
            x = inp_word("x", int(fn[-2:]))
            st, _ = eng.call1(st, f, [ctx, o, x])
            out.append(conv_res("%s mont256_%s%s" % (back, fn, k), eng, f, value(rd(eng, st, o, N, w), w), pscale(P(x), R2), M, (RR - 1) * (M - 1)))
    # from bytes
    m, w, N, M, eng, st, ctx = begin_op(back, cname)
    f = m.fn(NS[back] + "mont256_from_bytes")
    bs = [inp_word("b%d" % i, 8) for i in range(32)]
    src = words_obj(eng, st, "bytes", bs, 8)
    o = Ptr(eng.new_obj(st, "out", 32), 0)
    st, _ = eng.call1(st, f, [ctx, o, src])
    v = {}
    for b in bs:
        v = padd(pscale(v, 256), P(b))
    out.append(conv_res("%s mont256_from_bytes%s" % (back, k), eng, f, value(rd(eng, st, o, N, w), w), pscale(v, R2), M, (RR - 1) * (M - 1)))
    # to bytes: the product by one, out of the reduction
    m, w, N, M, eng, st, ctx = begin_op(back, cname)
    f = m.fn(NS[back] + "mont256_to_bytes")
    src = words_obj(eng, st, "a", syms("a", N, w), w)
    o = Ptr(eng.new_obj(st, "out", 32), 0)
    st, _ = eng.call1(st, f, [ctx, o, src])
    got = {}
    for b in rd(eng, st, o, 32, 8):
        if R(b)[0] < 0 or R(b)[1] > 255:
            raise AnalysisError("byte out of range")
        got = padd(pscale(got, 256), P(b))
    A = num("a", N, w)
    base = [padd(pconst(M - 1), A, -1), got, padd(pconst(RR - 1), got, -1)]
    g = canon({}, got, M)
    g[0] = ("cong", padd(pscale(got, RR), A, -1), M)
    out.append(res("%s mont256_to_bytes%s" % (back, k), eng, f, g, base, True))
    # tests
    for fn in ("equal", "equal_zero", "equal_one"):
        m, w, N, M, eng, st, ctx = begin_op(back, cname)
        f = m.fn(NS[back] + "mont256_" + fn)
        a = words_obj(eng, st, "a", syms("a", N, w), w)
        b = words_obj(eng, st, "b", syms("b", N, w), w)
        st, r = eng.call1(st, f, [ctx, a] + ([b] if fn == "equal" else []))
        A = num("a", N, w)
        want = {"equal": padd(A, num("b", N, w), -1), "equal_zero": A, "equal_one": padd(A, pconst(RR % M), -1)}[fn]
        out.append(res("%s mont256_%s%s" % (back, fn, k), eng, f, [("zero", padd(P(r), eq0(want), -1))]))
    return out


def conv_res(key, eng, f, out, T, M, bound):
    t = product(T, key) if len(T) else T
    base = [padd(pconst(bound), t, -1), t, out, padd(pconst(RR - 1), out, -1)]
    g = canon({}, out, M)
    g[0] = ("cong", padd(pscale(out, RR), t, -1), M)
    return res(key, eng, f, g, base, True)


def main():
    ck = Check("C10", "other", "congruence of the limbs written with the residue named by the operation and 0 <= result < modulus, for all operands", 100, ASSUME)
    MODS["portable"] = build_module("portable", [])
    MODS["simd"] = build_module("simd", [])
    jobs = []
    deep = ck.tier != "quick"
    for back in ("common", "x64"):
        jobs.append((context_constants, (back,)))
        for cname in MODULUS:
            jobs.append((convert, (back, cname)))
            for fn in ("add", "sub", "mul"):
                for nm, al in ALIAS2:
                    jobs.append((op, (back, cname, fn, al, nm)))
            for n in LENS + (tuple(range(0, 131)) if deep else ()):
                jobs.append((reduction, (back, cname, MODULUS[cname], n, True)))
            for fn in ("dbl", "tpl", "neg", "sqr", "div2", "cpy"):
                for nm, al in ALIAS1:
                    jobs.append((op, (back, cname, fn, al, nm)))
        divs = dict(MODULUS)
        divs["SM9 order minus one"] = MODULUS["SM9 order"] - 1
        for dn, M in divs.items():
            for fn in ("add", "sub"):
                for nm, al in ALIAS2:
                    jobs.append((modop, (back, dn, M, fn, al, nm)))
            for n in LENS + (tuple(range(0, 131)) if deep else ()):
                jobs.append((reduction, (back, dn, M, n, False)))
    sel = os.environ.get("ONLY")
    if sel:
        jobs = [j for j in jobs if sel in str(j[1])]
    ck.run(jobs)
    ck.finish()


main()
