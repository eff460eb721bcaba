"""Which exceptions can reach which function, and where the failure of a step can go.

Throws: a context-sensitive reachability analysis with integer intervals on the arguments (branch conditions refine the
intervals of the tested values), so a throw behind a length test is unreachable for callers that made the test.
Failures: from every call of a fallible function the function that called it is executed forward with the result fixed to a
failure value; every return reached that way must report failure."""
from .ir import AnalysisError

TOP = (0, None)
NOTHROW_EXT = ("llvm.", "mem", "str", "mock_reset", "mock_blocks", "mock_last", "mock_setkey", "mock_cipher", "printf", "fprintf", "puts", "putchar",
               "isprint", "rand", "srand", "time", "fwrite", "fput", "__cxa_allocate_exception", "__cxa_free_exception", "__cxa_begin_catch", "__cxa_end_catch",
               "__cxa_guard", "__cxa_atexit", "__gxx_personality", "_ZdlPv", "_ZdaPv", "__clang_call_terminate", "exit", "abort",
               "_ZSt9terminatev", "_ZNSt13runtime_errorC1EPKc")
# (constructing the exception object itself: out of memory there is already a throw of the same site)


def name_of(m, i):
    t = i.x["f"]
    return m.aliases.get(t[1], t[1]) if type(t) is list and t and t[0] == "g" else None


def const(a):
    return int(a[1]) if type(a) is list and a and a[0] == "c" else 0 if type(a) is list and a and a[0] in ("z", "n") else None


class Throws:
    def __init__(self, E):
        self.E, self.m = E, E.m
        self.memo = {}
        self.active = {}
        self.stack = []
        self.can = {}
        # functions that may throw at all, ignoring conditions
        self.defs = {f.name: {i.id: i for b in f.blocks for i in b if i.id >= 0} for f in E.defs}
        for f in E.defs:
            self.can[f.name] = False
        ch = True
        while ch:
            ch = False
            for f in E.defs:
                if not self.can[f.name] and any(self.leaves(f, i) and self.callee_can(f, i) for b in f.blocks for i in b if i.op in ("call", "invoke")):
                    self.can[f.name] = ch = True

    def handler(self, f, i):
        """None: exception leaves f.  'term': terminates.  block: caught there"""
        if i.op != "invoke":
            return "term" if f.nounwind and not i.x.get("nounwind") else None
        b = i.x["s"][1]
        lp = next((x for x in f.blocks[b] if x.op == "landingpad"), None)
        if lp is None:
            return None
        todo, seen, term, resume = [b], {b}, False, False
        while todo:
            q = todo.pop()
            for x in f.blocks[q]:
                if x.op in ("call", "invoke") and name_of(self.m, x) in ("__clang_call_terminate", "_ZSt9terminatev"):
                    term = True
                if x.op == "resume":
                    resume = True
                if x.op in ("call", "invoke") and name_of(self.m, x) == "__cxa_begin_catch":
                    return b
            for s in f.succ[q]:
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        if resume:
            return None
        return "term" if term else b

    def leaves(self, f, i):
        return not i.x.get("nounwind") and self.handler(f, i) is None

    def callee_can(self, f, i):
        names = self.E.info[f.name].targets(i)[0]
        if not names and type(i.x["f"]) is not list:
            return True
        return any(self.can[n] if n in self.can else self.ext(n) for n in names)

    def ext(self, n):
        g = self.m.funcs.get(n)
        if g is not None and g.decl and g.nounwind:
            return False
        return not n.startswith(NOTHROW_EXT)

    # ---------------------------------------------------------------- intervals
    def width(self, f, a):
        d = self.defs[f.name].get(a)
        t = d.ty if d is not None else self.m.types[f.args[a]["t"]] if a < len(f.args) else None
        return t.w if t is not None and t.k == "i" else None

    def iv(self, f, ctx, env, a, depth=0):
        """unsigned interval of an operand"""
        c = const(a)
        if c is not None:
            return (c, c)
        if type(a) is not int:
            return TOP
        w = self.width(f, a)
        if w is None:
            return TOP
        full = (0, (1 << w) - 1)
        r = env.get(a)
        s = self.raw(f, ctx, env, a, full, depth)
        return s if r is None else (max(r[0], s[0]), min(r[1], s[1]))

    def raw(self, f, ctx, env, a, full, depth):
        d = self.defs[f.name].get(a)
        if d is None:
            return ctx.get(a, full)
        if depth > 6:
            return full
        ev = lambda x: self.iv(f, ctx, env, x, depth + 1)
        op = d.op
        if op in ("zext", "freeze"):
            return ev(d.a[0])
        if op == "trunc":
            x = ev(d.a[0])
            return x if x[1] is not None and x[1] <= full[1] else full
        if op in ("mul", "add", "shl"):
            x, y = ev(d.a[0]), ev(d.a[1])
            if None in (x[1], y[1]):
                return full
            g = {"mul": lambda p, q: p * q, "add": lambda p, q: p + q, "shl": lambda p, q: p << min(q, 200)}[op]
            lo, hi = g(x[0], y[0]), g(x[1], y[1])
            return (lo, hi) if hi <= full[1] else full
        if op == "sub":
            x, y = ev(d.a[0]), ev(d.a[1])
            return (x[0] - y[1], x[1] - y[0]) if None not in (x[1], y[1]) and x[0] >= y[1] else full
        if op == "lshr":
            x, y = ev(d.a[0]), const(d.a[1])
            return (x[0] >> y, x[1] >> y) if y is not None else (0, x[1])
        if op == "udiv":
            x, y = ev(d.a[0]), const(d.a[1])
            return (x[0] // y, x[1] // y) if y else full
        if op == "urem":
            y = const(d.a[1])
            return (0, min(y - 1, ev(d.a[0])[1])) if y else full
        if op == "and":
            y = [const(q) for q in d.a]
            y = [q for q in y if q is not None]
            return (0, min(y + [ev(d.a[0])[1] if y else full[1]])) if y else full
        if op in ("select",):
            x, y = ev(d.a[1]), ev(d.a[2])
            return (min(x[0], y[0]), max(x[1], y[1]))
        if op == "icmp":
            t = self.truth(f, ctx, env, a, depth + 1)
            return full if t is None else (int(t), int(t))
        return full

    def truth(self, f, ctx, env, a, depth=0):
        c = const(a)
        if c is not None:
            return bool(c)
        r = env.get(a)
        if r is not None and r[0] == r[1]:
            return bool(r[0])
        d = self.defs[f.name].get(a)
        if d is None or d.op != "icmp" or depth > 6:
            return None
        x, y = self.iv(f, ctx, env, d.a[0], depth + 1), self.iv(f, ctx, env, d.a[1], depth + 1)
        if None in (x[1], y[1]):
            return None
        p = d.x["p"]
        if p in ("sgt", "sge", "slt", "sle"):
            w = self.width(f, d.a[0]) if type(d.a[0]) is int else self.width(f, d.a[1])
            if w is None or max(x[1], y[1]) >= 1 << (w - 1):
                return None
            p = "u" + p[1:]
        if p in ("ult", "uge"):
            t = True if x[1] < y[0] else False if x[0] >= y[1] else None
            return t if p == "ult" or t is None else not t
        if p in ("ugt", "ule"):
            t = True if x[0] > y[1] else False if x[1] <= y[0] else None
            return t if p == "ugt" or t is None else not t
        t = False if x[1] < y[0] or y[1] < x[0] else True if x[0] == x[1] == y[0] == y[1] else None
        return t if p == "eq" or t is None else not t

    def refine(self, f, ctx, env, a, v, depth=0):
        """env under the assumption that the boolean a is v; None if impossible"""
        t = self.truth(f, ctx, env, a)
        if t is not None:
            return env if t == v else None
        env = dict(env)
        if type(a) is int:
            env[a] = (int(v), int(v))
        d = self.defs[f.name].get(a) if type(a) is int else None
        if d is None or depth > 8:
            return env
        if d.op == "freeze":
            return self.refine(f, ctx, env, d.a[0], v, depth + 1)
        if d.op == "xor" and const(d.a[1]) in (1, -1, True):
            return self.refine(f, ctx, env, d.a[0], not v, depth + 1)
        if d.op in ("and", "or") and (d.op == "and") == v:
            for x in d.a:
                env = self.refine(f, ctx, env, x, v, depth + 1)
                if env is None:
                    return None
            return env
        if d.op == "select":
            # a && b: select a, b, false;  a || b: select a, true, b
            if v and const(d.a[2]) == 0:
                e = self.refine(f, ctx, env, d.a[0], True, depth + 1)
                return None if e is None else self.refine(f, ctx, e, d.a[1], True, depth + 1)
            if not v and const(d.a[1]) is not None and const(d.a[1]) != 0:
                e = self.refine(f, ctx, env, d.a[0], False, depth + 1)
                return None if e is None else self.refine(f, ctx, e, d.a[2], False, depth + 1)
            return env
        if d.op in ("zext", "trunc") and (self.width(f, d.a[0]) == 1 or d.op == "trunc" and self.boolean(f, d.a[0])):
            return self.refine(f, ctx, env, d.a[0], v, depth + 1)
        if d.op in ("call", "invoke"):
            return self.implied(f, ctx, env, d, v)
        if d.op == "phi":
            fl = self.active.get((f.name, tuple(sorted(ctx.items())), "flow"))
            B = f.defblk[a]
            if fl is None or any(B in f.loopblocks[h] for h in f.headers):
                return env
            acc = None
            for val, pb in d.a:
                if pb not in fl:
                    continue
                for s, e in self.edges(f, ctx, pb, fl[pb]):
                    if s != B:
                        continue
                    e = self.refine(f, ctx, e, val, v, depth + 1)
                    if e is not None:
                        acc = e if acc is None else {k: (min(acc[k][0], e[k][0]), max(acc[k][1], e[k][1])) for k in acc if k in e}
            if acc is None:
                return None
            for k, x in acc.items():
                o = env.get(k)
                env[k] = x if o is None else (max(o[0], x[0]), min(o[1], x[1]))
                if env[k][0] > env[k][1]:
                    return None
            return env
        if d.op == "icmp":
            p = d.x["p"]
            if not v:
                p = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
                     "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[p]
            x, y = d.a[0], d.a[1]
            c = const(y)
            if c is not None and type(x) is int and p in ("eq", "ne"):
                dx = self.defs[f.name].get(x)
                if dx is not None and dx.op in ("zext", "call", "invoke") and c in (0, 1) and (dx.op != "zext" or self.width(f, dx.a[0]) == 1):
                    w = self.width(f, x)
                    if w == 1 or dx.op == "zext":
                        return self.refine(f, ctx, env, x if w == 1 else dx.a[0], (p == "eq") == bool(c), depth + 1)
            env = self.bound(f, ctx, env, x, p, self.iv(f, ctx, env, y))
            if env is None:
                return None
            sw = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
            return self.bound(f, ctx, env, y, sw, self.iv(f, ctx, env, x))
        return env

    def boolean(self, f, a, depth=0):
        """a wider value that is always 0 or 1"""
        c = const(a)
        if c is not None:
            return c in (0, 1)
        d = self.defs[f.name].get(a) if type(a) is int else None
        if d is None or depth > 4:
            return False
        if d.op == "zext":
            return self.width(f, d.a[0]) == 1 or self.boolean(f, d.a[0], depth + 1)
        if d.op == "phi":
            return all(self.boolean(f, x[0], depth + 1) for x in d.a)
        return False

    def bound(self, f, ctx, env, x, p, y, depth=0):
        """x p y"""
        if type(x) is not int or y[1] is None or p[0] == "s":
            return env
        o = self.iv(f, ctx, env, x)
        if o[1] is None:
            return env
        lo, hi = o
        if p == "ult":
            hi = min(hi, y[1] - 1)
        elif p == "ule":
            hi = min(hi, y[1])
        elif p == "ugt":
            lo = max(lo, y[0] + 1)
        elif p == "uge":
            lo = max(lo, y[0])
        elif p == "eq":
            lo, hi = max(lo, y[0]), min(hi, y[1])
        elif y[0] == y[1]:
            if lo == y[0]:
                lo += 1
            if hi == y[0]:
                hi -= 1
        if lo > hi:
            return None
        if (lo, hi) == o:
            return env
        env = dict(env)
        env[x] = (lo, hi)
        d = self.defs[f.name].get(x)
        if d is not None and depth < 5:
            # back through x = q >> c, q / c, zext q (exact), where the operand is wider than the result
            if d.op in ("zext", "freeze"):
                return self.bound(f, ctx, env, d.a[0], "eq", (lo, hi), depth + 1)
            c = const(d.a[1]) if len(d.a) > 1 else None
            if d.op in ("mul", "shl") and c:
                k = c if d.op == "mul" else 1 << c
                y = self.iv(f, ctx, env, d.a[0])
                if y[1] is not None and y[1] * k < 1 << self.width(f, x):
                    return self.bound(f, ctx, env, d.a[0], "eq", (-(-lo // k), hi // k), depth + 1)
            if d.op in ("udiv", "lshr") and c:
                k = c if d.op == "udiv" else 1 << c
                return self.bound(f, ctx, env, d.a[0], "eq", (lo * k, hi * k + k - 1), depth + 1)
        return env

    def flow(self, f, ctx):
        """per block: env of feasible entry, or absent"""
        key = (f.name, tuple(sorted(ctx.items())), "flow")
        if key in self.memo:
            return self.memo[key]
        env = {0: {}}
        self.active[key] = env
        todo = [0]
        last = {}
        n = 0
        while todo:
            n += 1
            if n > 20000:
                raise AnalysisError("interval analysis of %s does not settle" % f.dem)
            b = todo.pop(0)
            dirty = {(s, b) for s in f.succ[b] if last.get(b) != env[b]}
            last[b] = dict(env[b])
            for s, e in self.edges(f, ctx, b, env[b]):
                o = env.get(s)
                # a refined value has to be dropped where it is redefined (loops)
                e = {k: v for k, v in e.items() if f.defblk.get(k) != s or False}
                if o is None:
                    env[s] = e
                    todo.append(s)
                else:
                    j = {k: (min(o[k][0], e[k][0]), max(o[k][1], e[k][1])) for k in o if k in e}
                    if n > 4000:
                        j = {k: v for k, v in j.items() if v == o[k]}
                    if j != o:
                        env[s] = j
                    if (j != o or any(x.op == "phi" for x in f.blocks[s][:1])) and s not in todo and (j != o or (s, b) in dirty):
                        todo.append(s)
        self.memo[key] = env
        return env

    def edges(self, f, ctx, b, env):
        t = f.blocks[b][-1]
        if t.op == "br" and t.a:
            if t.x["s"][0] == t.x["s"][1]:
                return [(t.x["s"][0], env)]
            r = []
            for v, s in ((True, t.x["s"][0]), (False, t.x["s"][1])):
                e = self.refine(f, ctx, env, t.a[0], v)
                if e is not None:
                    r.append((s, e))
            return r
        if t.op == "invoke":
            r = [(t.x["s"][0], env)]
            if not t.x.get("nounwind") and any(True for _ in self.sites_of_call(f, ctx, env, t)):
                r.append((t.x["s"][1], env))
            return r
        if t.op == "switch":
            r = []
            for s in t.x["s"][1:]:
                e = self.bound(f, ctx, env, t.a[0], "eq", (int(s[0]), int(s[0])))
                if e is not None:
                    r.append((s[1], e))
            return r + [(t.x["s"][0], env)]
        return [(s, env) for s in f.succ[b]]

    def argctx(self, f, ctx, env, g, i):
        r = {}
        for k, a in enumerate(i.a):
            if k < len(g.args) and self.m.types[g.args[k]["t"]].k == "i":
                x = self.iv(f, ctx, env, a)
                w = self.m.types[g.args[k]["t"]].w
                if x[1] is not None and x != (0, (1 << w) - 1):
                    r[k] = x
        return r

    def implied(self, f, ctx, env, d, v):
        """a called predicate returned v: what that says about its integer arguments"""
        n = name_of(self.m, d)
        g = self.m.funcs.get(n) if n else None
        if g is None or g.decl or len(self.stack) > 6 or len(g.blocks) > 40 or g.d["loops"]:
            return env
        if n in self.stack:
            return env
        self.stack.append(n)
        try:
            c2 = self.argctx(f, ctx, env, g, d)
            fl = self.flow(g, c2)
            acc = None
            for bi, e in fl.items():
                t = g.blocks[bi][-1]
                if t.op != "ret":
                    continue
                a = t.a[0]
                dd = self.defs[g.name].get(a) if type(a) is int else None
                outs = []
                if dd is not None and dd.op == "phi" and g.defblk[a] == bi:
                    for val, pb in dd.a:
                        if pb not in fl:
                            continue
                        for s, e2 in self.edges(g, c2, pb, fl[pb]):
                            if s == bi:
                                r = self.refine(g, c2, e2, val, v)
                                if r is not None:
                                    outs.append(r)
                else:
                    r = self.refine(g, c2, e, a, v)
                    if r is not None:
                        outs.append(r)
                for r in outs:
                    h = {k: self.iv(g, c2, r, k) for k in range(len(g.args)) if self.m.types[g.args[k]["t"]].k == "i"}
                    acc = h if acc is None else {k: (min(acc[k][0], h[k][0]), max(acc[k][1], h[k][1])) for k in h}
        finally:
            self.stack.pop()
        if acc is None:
            return None
        for k, x in acc.items():
            if k < len(d.a) and x[1] is not None:
                env = self.bound(f, ctx, env, d.a[k], "eq", x)
                if env is None:
                    return None
        return env

    # ---------------------------------------------------------------- throw sites
    def sites_of_call(self, f, ctx, env, i):
        """throw sites that this call may let out: (text, chain)"""
        names = self.E.info[f.name].targets(i)[0]
        if not names and type(i.x["f"]) is not list:
            yield ("call through a function pointer", (self.m.loc(i.loc),))
        for n in names:
            if n == "__cxa_throw":
                yield (f.dem, (self.m.loc(i.loc),))
            elif n in self.can:
                if self.can[n]:
                    g = self.m.funcs[n]
                    for s, ch in self.sites(g, self.argctx(f, ctx, env, g, i)):
                        yield (s, (self.m.loc(i.loc),) + ch)
            elif self.ext(n):
                g = self.m.funcs.get(n)
                yield (g.dem if g is not None else n, (self.m.loc(i.loc),))

    def sites(self, g, ctx):
        key = (g.name, tuple(sorted(ctx.items())))
        if key in self.memo:
            return self.memo[key]
        if key in self.stack:
            return []
        if sum(1 for s in self.stack if s[0] == g.name) > 3:
            ctx = {}
            key = (g.name, ())
            if key in self.stack:
                return []
        self.stack.append(key)
        try:
            fl = self.flow(g, ctx)
            r = {}
            for b, env in sorted(fl.items()):
                for i in g.blocks[b]:
                    if i.op in ("call", "invoke") and self.leaves(g, i):
                        for s, ch in self.sites_of_call(g, ctx, env, i):
                            r.setdefault(s, ch)
        finally:
            self.stack.pop()
        r = sorted(r.items())
        if not self.stack:
            self.memo[key] = r
        return r


# -------------------------------------------------------------------- failures
NZ = "nonzero"


class Failures:
    """fail[f] = set of constants f returns when it fails (None: by inference not fallible)"""

    def __init__(self, E, table=()):
        self.E, self.m = E, E.m
        self.defs = {f.name: {i.id: i for b in f.blocks for i in b if i.id >= 0} for f in E.defs}
        self.fail = {}
        import re
        for f in E.defs:
            for pat in table:
                if re.search(pat, f.dem.split("(")[0]) and f.ret.k == "i" and f.ret.w == 1:
                    self.fail[f.name] = {0}
        ch = True
        info = {}
        while ch:
            ch = False
            for f in E.defs:
                if f.name in self.fail or f.ret.k != "i" or f.ret.w != 32:
                    continue
                s = self.values(f)
                if s is None:
                    continue
                neg = {v for v in s if v >> 31 & 1}
                if neg and all(v == 0 or v >> 31 & 1 for v in s):
                    self.fail[f.name] = neg
                    ch = True
            # wrappers: all returned values are statuses (second pass picks up calls)

    def values(self, f):
        """constants returned, through statuses of fallible callees; None if anything else is returned"""
        out, seen = set(), set()
        todo = [a for b in f.blocks if b[-1].op == "ret" for a in b[-1].a]
        while todo:
            a = todo.pop()
            c = const(a)
            if c is not None:
                out.add(c & 0xffffffff)
                continue
            if type(a) is list:
                if a and a[0] == "u":
                    continue
                return None
            if a in seen:
                continue
            seen.add(a)
            d = self.defs[f.name].get(a)
            if d is None:
                return None
            if d.op == "phi":
                todo += [x[0] for x in d.a]
            elif d.op == "select":
                todo += d.a[1:3]
            elif d.op in ("freeze",):
                todo.append(d.a[0])
            elif d.op in ("call", "invoke"):
                n = name_of(self.m, d)
                if n in self.fail:
                    out |= {v & 0xffffffff for v in self.fail[n]} | {0}
                elif n != f.name:
                    return None
            else:
                return None
        return out

    def run(self, f, b0, k0, regs0, through):
        """execute f from instruction k0 of block b0 with the known register values; outcomes:
        ('ret', value or None), ('throw',), ('again', passes through `through`?)"""
        outs = []
        # state: block, pred -> facts joined per block: reg -> const/NZ (absent: unknown)
        start = (b0, k0)
        self.cur = f
        work = [(b0, k0, dict(regs0), False, None)]
        seen = {}
        steps = 0
        while work:
            b, k, regs, thru, pred = work.pop()
            steps += 1
            if steps > 4000:
                raise AnalysisError("failure flow in %s too large" % f.dem)
            ins = f.blocks[b]
            if pred is not None:
                new = {}
                for i in ins:
                    if i.op != "phi":
                        break
                    for a, pb in i.a:
                        if pb == pred:
                            v = self.val(regs, a)
                            new[i.id] = v
                for r, v in new.items():
                    if v is None:
                        regs.pop(r, None)
                    else:
                        regs[r] = v
            if k == 0:
                key = (b, thru)
                o = seen.get(key)
                if o is not None:
                    j = {r: v for r, v in o.items() if regs.get(r) == v}
                    if j == o:
                        continue
                    regs = j
                seen[key] = dict(regs)
            dead = False
            for kk in range(k, len(ins)):
                i = ins[kk]
                if (b, kk) == (b0, k0 - 1) and i.op in ("call", "invoke"):
                    outs.append(("again", thru, i))
                    dead = True
                    break
                if i.op == "phi":
                    continue
                if i.op in ("call", "invoke"):
                    if i.id >= 0:
                        regs.pop(i.id, None)
                    ns = self.E.info[f.name].targets(i)[0]
                    if "__cxa_throw" in ns or "_ZSt9terminatev" in ns or "__cxa_rethrow" in ns or (ns and all(self.m.funcs.get(n) is not None and self.m.funcs[n].noreturn for n in ns)):
                        outs.append(("throw",))
                        dead = True
                        break
                    if any(n in through for n in ns) or (not ns):
                        thru = True
                    continue
                if i.id >= 0:
                    v = self.ev(f, regs, i)
                    if v is None:
                        regs.pop(i.id, None)
                    else:
                        regs[i.id] = v
            if dead:
                continue
            t = ins[-1]
            if t.op == "ret":
                outs.append(("ret", self.val(regs, t.a[0]) if t.a else None, t))
            elif t.op == "resume":
                outs.append(("throw",))
            elif t.op == "br" and t.a:
                c = self.val(regs, t.a[0])
                for v, s in ((1, t.x["s"][0]), (0, t.x["s"][1])):
                    if c is None or (c == NZ and v) or c == v:
                        r = dict(regs)
                        if type(t.a[0]) is int:
                            self.learn(f, r, t.a[0], v)
                        work.append((s, 0, r, thru, b))
            elif t.op == "switch":
                c = self.val(regs, t.a[0])
                hit = False
                for s in t.x["s"][1:]:
                    w = int(s[0])
                    if c is None or c == w or (c == NZ and w != 0):
                        work.append((s[1], 0, dict(regs), thru, b))
                        hit |= c == w
                if not hit:
                    work.append((t.x["s"][0], 0, dict(regs), thru, b))
            elif t.op == "invoke":
                # the unwinding edge is another failure, judged on its own
                work.append((t.x["s"][0], 0, dict(regs), thru, b))
            else:
                for s in f.succ[b]:
                    work.append((s, 0, dict(regs), thru, b))
        return outs

    def learn(self, f, r, a, v):
        r[a] = v
        d = self.defs[f.name].get(a)
        if d is not None and d.op == "icmp" and d.x["p"] in ("eq", "ne") and type(d.a[0]) is int and const(d.a[1]) is not None:
            if (d.x["p"] == "eq") == bool(v):
                r[d.a[0]] = const(d.a[1])
            elif const(d.a[1]) == 0:
                r.setdefault(d.a[0], NZ)

    def val(self, regs, a):
        if type(a) is int:
            return regs.get(a)
        return const(a)

    def ev(self, f, regs, i):
        op = i.op
        g = lambda k: self.val(regs, i.a[k])
        w = i.ty.w if i.ty.k == "i" else None
        if op in ("freeze",):
            return g(0)
        if op in ("zext", "sext", "trunc"):
            x = g(0)
            if x is None or x == NZ:
                return NZ if x == NZ and op != "trunc" else None
            d = self.defs[f.name].get(i.a[0]) if type(i.a[0]) is int else None
            sw = (d.ty.w if d is not None else self.m.types[f.args[i.a[0]]["t"]].w) if type(i.a[0]) is int else int(i.a[0][2])
            if op == "sext" and x >> (sw - 1) & 1:
                x -= 1 << sw
            return x & ((1 << w) - 1)
        if op == "icmp":
            x, y, p = g(0), g(1), i.x["p"]
            if x is None or y is None:
                return None
            if NZ in (x, y):
                o = y if x == NZ else x
                if o == 0 and p in ("eq", "ne"):
                    return int(p == "ne")
                if o == 0 and x == NZ and p == "ugt":
                    return 1
                return None
            d = self.defs[f.name].get(i.a[0]) if type(i.a[0]) is int else None
            t = self.m.types[i.x["ot"]]
            if t.k != "i":
                return None
            M = (1 << t.w) - 1
            x &= M
            y &= M
            if p[0] == "s":
                x = x - (M + 1) if x >> (t.w - 1) else x
                y = y - (M + 1) if y >> (t.w - 1) else y
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p if p in ("eq", "ne") else p[1:]])
        if op == "select":
            c = g(0)
            if c is None or c == NZ and w != 1 and False:
                a, b = g(1), g(2)
                return a if a == b else NZ if a not in (None, 0) and b not in (None, 0) else None
            return g(1) if c else g(2)
        if op in ("and", "or", "xor", "add", "sub"):
            x, y = g(0), g(1)
            if op == "and" and 0 in (x, y):
                return 0
            if op == "or":
                M = (1 << w) - 1
                if x == M or y == M:
                    return M
                if x == 0:
                    return y
                if y == 0:
                    return x
                if x is not None or y is not None:
                    return NZ if NZ in (x, y) or (x or 0) or (y or 0) else None
            if x is None or y is None or NZ in (x, y):
                if op in ("xor", "add", "sub") and y == 0:
                    return x
                return None
            return {"and": x & y, "or": x | y, "xor": x ^ y, "add": x + y, "sub": x - y}[op] & ((1 << w) - 1)
        return None
