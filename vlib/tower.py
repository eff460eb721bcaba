"""The tower F_p[u]/(u^2+2), [v]/(v^2-u), [w]/(w^3-v): an element is a polynomial in w modulo w^12+2 (u = w^6, v = w^3)."""
from .core import Result
from .engine import Ptr, Finding, UNDEF, Part
from .ir import AnalysisError
from .fe import Field, FE, Tok, cases, CONSTS
from .engine import State
from .util import stats, real_where

P9 = CONSTS["fp9"]
# memory position -> exponent of w
POS = {1: [0], 2: [0, 6], 4: [0, 6, 3, 9], 12: [i + 3 * j + 6 * k for i in range(3) for j in range(2) for k in range(2)]}
# order of the big-endian byte encoding: highest coefficient first
ENC = {2: [1, 0], 4: [3, 2, 1, 0], 12: [11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]}
KAPPA = pow(P9 - 2, (P9 - 1) // 12, P9)
NAME = {1: "fp", 2: "fp2", 4: "fp4", 12: "fp12"}


class T(Field):
    def __init__(self, m, script=()):
        Field.__init__(self, m, script)
        self.st = State()
        self.r9 = self.rings["fp9"]
        self.invs = []

    def at(self, name, n):
        return [FE(self.r9, self.r9.var("%s.%d" % (name, i))) for i in range(n)]

    def zero(self):
        return FE(self.r9, {})

    def w(self, mem):
        """memory order -> dict exponent of w -> FE"""
        return {e: v for e, v in zip(POS[len(mem)], mem) if v.n}

    def mem(self, d, n):
        r = [d.get(e, self.zero()) for e in POS[n]]
        if any(v.n and e not in POS[n] for e, v in d.items()):
            raise AnalysisError("element outside its subfield")
        return r

    def mul(self, a, b):
        r = {}
        for i, x in a.items():
            for j, y in b.items():
                k, z = i + j, x * y
                if k >= 12:
                    k, z = k - 12, z * -2
                r[k] = r[k] + z if k in r else z
        return r

    def add(self, a, b, k=1):
        r = dict(a)
        for e, v in b.items():
            v = v * k
            r[e] = r[e] + v if e in r else v
        return r

    def scale(self, a, k):
        return {e: v * k for e, v in a.items()}

    def same(self, a, b):
        z = self.zero()
        if self.taken:
            # modulo the hypotheses made
            return all(not self.r9.reduce((a.get(e, z) - b.get(e, z)).n) for e in set(a) | set(b))
        return all(a.get(e, z) == b.get(e, z) for e in set(a) | set(b))

    def frob(self, a, k):
        return {e: v * pow(KAPPA, e * k, P9) for e, v in a.items()}

    def obj(self, name, els):
        return self.new(self.st, name, els)

    def rd(self, st, p, n):
        return [self.get(st, self.r9, Ptr(p.obj, p.off + 32 * i), "result") for i in range(n)]

    def hook_inverse(self, n):
        """replace the inversion of the n-dimensional subfield by unknowns I with t*I = 1"""
        def h(eng, st, f, a):
            t = [self.get(st, self.r9, Ptr(a[1].obj, a[1].off + 32 * i)) for i in range(n)]
            I = self.at("I%d" % len(self.invs), n)
            self.invs.append((t, I))
            for i, v in enumerate(I):
                self.put(st, Ptr(a[0].obj, a[0].off + 32 * i), v)
        self.eng.hook(r"^sm9::internal::sm9_%s_inv\(" % NAME[n], h)


def ops(n):
    """operation -> (operand sizes, specification)"""
    u = {2: {"mul_u": 6}, 4: {"mul_v": 3}, 12: {}}[n]
    r = {"add": ((n, n), lambda w, a, b: w.add(a, b)), "sub": ((n, n), lambda w, a, b: w.add(a, b, -1)),
         "neg": ((n,), lambda w, a: w.scale(a, -1)), "cpy": ((n,), lambda w, a: a),
         "mul": ((n, n), lambda w, a, b: w.mul(a, b)), "sqr": ((n,), lambda w, a: w.mul(a, a)),
         "set_zero": ((), lambda w: {}), "set_one": ((), lambda w: {0: FE(w.r9, w.r9.const(1))})}
    if n == 2:
        r["dbl"] = ((n,), lambda w, a: w.scale(a, 2))
        r["tpl"] = ((n,), lambda w, a: w.scale(a, 3))
        r["conjugate"] = ((n,), lambda w, a: w.frob(a, 1))
    if n == 4:
        r["conjugate"] = ((n,), lambda w, a: w.frob(a, 2))
        r["mul_fp2"] = ((4, 2), lambda w, a, b: w.mul(a, b))
    if n < 12:
        r["mul_fp"] = ((n, 1), lambda w, a, b: w.mul(a, b))
    else:
        r["mul_fp4"] = ((12, 4), lambda w, a, b: w.mul(a, b))
        for k in (1, 2, 3, 6):
            r["frobenius%s" % (k if k > 1 else "")] = ((12,), lambda w, a, k=k: w.frob(a, k))
    for k, e in u.items():
        r[k] = ((n,), lambda w, a, e=e: w.mul(a, {e: FE(w.r9, w.r9.const(1))}))
    return r


OPTIONAL = ("conjugate", "frobenius", "frobenius2", "frobenius3", "frobenius6")


def fname(n, op):
    return "sm9::internal::sm9_%s_%s" % (NAME[n], op)


def one(w, f, args):
    outs = w.eng.call(w.st, f, args)
    if len(outs) != 1 or outs[0][0] != "ret":
        raise AnalysisError("%d outcomes of %s" % (len(outs), f.dem))
    return outs[0][1], outs[0][2]


def t_op(m, n, op):
    sizes, spec = ops(n)[op]
    try:
        f = m.fn(fname(n, op))
    except AnalysisError:
        if op in OPTIONAL:
            return []
        raise
    rs = []
    # which operands share storage with the result / with each other
    al = [()]
    if sizes and sizes[0] == n:
        al.append((0,))
    if len(sizes) == 2 and sizes[1] == n:
        al += [(1,), "both", (0, 1)]
    for a in al:
        w = T(m)
        els = [w.at("ab"[i], s) for i, s in enumerate(sizes)]
        if a in ("both", (0, 1)):
            els[1] = els[0]
        objs = [w.obj("ab"[i], e) for i, e in enumerate(els)]
        if a in ("both", (0, 1)):
            objs[1] = objs[0]
        R = objs[a[0]] if a and a != "both" else w.obj("R", [None] * n)
        key = "%s %s%s" % (NAME[n], op, "" if not a else " of an operand with itself" if a == "both" else ", result over operand %s" % (a,))
        want = spec(w, *[w.w(e) for e in els])
        try:
            st, _ = one(w, f, [R] + objs)
            got = w.rd(st, R, n)
            bad = [i for i, x in enumerate(w.mem(want, n)) if got[i] != x]
            rs.append(Result(key, not bad, real_where(w.eng, f), "" if not bad else "coefficient of w^%d is %r" % (POS[n][bad[0]], got[bad[0]]), stats(w.eng)))
        except Finding as e:
            rs.append(Result(key, False, e.where, "%s: %s" % (e.kind, e.msg)))
    return rs


def norm_to(w, a, n, k):
    """norm of a from the n-dimensional field to the k-dimensional one"""
    r = a
    for i in range(1, n // k):
        r = w.mul(r, w.frob(a, i * k))
    return r


def t_inv(m, n):
    sub = {2: 1, 4: 2, 12: 4}[n]
    rs = []
    f = m.fn(fname(n, "inv"))
    for al in (0, 1):
        key = "%s inv%s" % (NAME[n], ", in place" if al else "")
        count = {}

        def once(script):
            w = T(m, script)
            els = w.at("a", n)
            a = w.w(els)
            N = norm_to(w, a, n, sub)
            if sub == 1:
                w.nonzero["fp9"].append(N[0].n)
            else:
                w.hook_inverse(sub)
            p = w.obj("a", els)
            R = p if al else w.obj("R", [None] * n)
            try:
                st, _ = one(w, f, [R, p])
                if w.open:
                    raise AnalysisError("comparison of something unexpected in an inversion")
                if w.taken and w.same(N, {}):
                    return w.taken, None      # the operand is zero
                r = w.w(w.rd(st, R, n))
                prod = w.mul(a, r)
                if sub == 1:
                    # x * I = 1 for every inverse the field operation returned
                    ok = w.same(prod, {0: FE(w.r9, w.r9.const(1))})
                else:
                    if len(w.invs) != 1:
                        raise AnalysisError("%d inversions in the subfield" % len(w.invs))
                    t, I = w.invs[0]
                    ok = w.same(prod, w.mul(w.w(t), w.w(I)))
                    if ok and not w.taken and not w.same(w.w(t), N) and not w.same(w.scale(w.w(t), -1), N):
                        raise AnalysisError("inverts something that is not the norm")
                    if ok and w.taken and w.same(w.w(t), {}):
                        ok = False
            except Finding as e:
                return w.taken, Result(key, False, e.where, "%s: %s" % (e.kind, e.msg))
            count.update(stats(w.eng))
            why = "operand times result is not one" + (" when %s" % ", ".join("%s %s 0" % (t, "=" if d else "!=") for t, d in w.taken) if w.taken else "")
            return w.taken, Result(key, ok, real_where(w.eng, f), "" if ok else why, stats(w.eng))
        out = [r for _, r in cases(once, 40) if r]
        bad = [r for r in out if not r.ok]
        rs.append(bad[0] if bad else out[0])
    return rs


def t_pred(m, n, op):
    f = m.fn(fname(n, op))
    key = "%s %s" % (NAME[n], op)
    for same in (False, True):
        def once(script):
            w = T(m, script)
            a = w.at("a", n)
            b = a if same else w.at("b", n)
            args = [w.obj("a", a)]
            if op == "equal":
                args.append(args[0] if same else w.obj("b", b))
                diff = [x - y for x, y in zip(a, b)]
            elif op == "equal_zero":
                diff = a
            else:
                diff = [a[0] - FE(w.r9, w.r9.const(1))] + a[1:]
            st, v = one(w, f, args)
            eq = all(not w.r9.reduce(d.n) for d in diff)
            refuted = any(not d for _, d in w.taken)
            e = None
            if w.open:
                raise AnalysisError("comparison of something unexpected in " + key)
            if bool(v & 1) and not eq:
                e = "true although only %s is established" % [t for t, d in w.taken if d]
            if not v & 1 and not refuted:
                e = "false although everything is equal"
            return w.taken, (e, w)
        for t, (e, w) in cases(once, 200):
            if e:
                return [Result(key, False, real_where(w.eng, f), e)]
        if op != "equal":
            break
    return [Result(key, True, real_where(w.eng, f), "", stats(w.eng))]


def t_bytes(m, n):
    rs = []
    f = m.fn(fname(n, "to_bytes"))
    w = T(m)
    a = w.at("a", n)
    D = Ptr(w.eng.new_obj(w.st, "dst", 32 * n, "input"), 0)
    st, _ = one(w, f, [D, w.obj("a", a)])
    got = w.eng.load_bytes(st, D, 32 * n)
    want = [c for i in ENC[n] for c in w.bytes_of(a[i])]
    ok = got == want
    rs.append(Result("%s to_bytes" % NAME[n], ok, real_where(w.eng, f), "" if ok else "encoding order", stats(w.eng)))
    f = m.fn(fname(n, "from_bytes"))
    w = T(m)
    toks = [Tok(("coord", i), 32) for i in range(n)]
    k = w.eng.new_obj(w.st, "src", 32 * n, "input")
    for j, i in enumerate(ENC[n]):
        for b in range(32):
            w.st.mem[k].cells[32 * j + b] = Part(toks[i], b, 32)
    R = w.obj("R", [None] * n)
    st, _ = one(w, f, [R, Ptr(k, 0)])
    got = w.rd(st, R, n)
    want = [FE(w.r9, w.r9.var(("res", t))) for t in toks]
    ok = got == want
    rs.append(Result("%s from_bytes" % NAME[n], ok, real_where(w.eng, f), "" if ok else "decoding order", stats(w.eng)))
    return rs


def jobs(m):
    r = []
    for n in (2, 4, 12):
        for op in ops(n):
            r.append((t_op, (m, n, op)))
        r.append((t_inv, (m, n)))
        for op in ("equal", "equal_zero", "equal_one"):
            r.append((t_pred, (m, n, op)))
        r.append((t_bytes, (m, n)))
    return r
