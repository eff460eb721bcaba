"""Path-wise abstract interpretation with linear inequalities over unknown lengths, offsets and bytes.

Integers are linear expressions over named unknowns, pointers are (region, linear offset).  Every access to a region has to be
proved to lie inside it from the inequalities known on the path (Fourier-Motzkin elimination with integer rounding, no solver).
Loops are unrolled while their bounds are constant; otherwise a loop is replaced by an invariant inferred from templates, which is
checked on entry and on every back edge, and a variable that moves strictly in one direction must exist (termination)."""
import re
from math import gcd

from .ir import AnalysisError
from .engine import Finding


class L:
    """linear expression, immutable"""
    __slots__ = ("c", "d", "h")

    def __init__(self, c=0, d=None):
        self.c = c
        self.d = d or {}
        self.h = None

    def key(self):
        if self.h is None:
            self.h = (self.c, frozenset(self.d.items()))
        return self.h

    def __eq__(self, o):
        return type(o) is L and self.c == o.c and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        o = lin(o)
        d = dict(self.d)
        for s, k in o.d.items():
            n = d.get(s, 0) + k
            if n:
                d[s] = n
            else:
                d.pop(s, None)
        return L(self.c + o.c, d)

    def __neg__(self):
        return L(-self.c, {s: -k for s, k in self.d.items()})

    def __sub__(self, o):
        return self + (-lin(o))

    def scale(self, k):
        return L(self.c * k, {s: v * k for s, v in self.d.items()} if k else {})

    def __repr__(self):
        out = ""
        for s, k in sorted(self.d.items()):
            out += "%s%s%s" % ("-" if k < 0 else "+" if out else "", "" if abs(k) == 1 else "%d*" % abs(k), s)
        if self.c or not out:
            out += "%+d" % self.c if out else "%d" % self.c
        return out


def lin(x):
    return x if type(x) is L else L(x)


def small(e):
    return e.c if type(e) is L and not e.d else e


class P:
    """pointer"""
    __slots__ = ("r", "o")

    def __init__(self, r, o):
        self.r, self.o = r, lin(o)

    def __eq__(self, o):
        return type(o) is P and self.r == o.r and self.o == o.o

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return "&%s[%r]" % (self.r, self.o)


class Fn:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class _U:
    def __repr__(self):
        return "undef"


U = _U()


class Region:
    """kind: 'in' read-only bytes, 'out' write log, 'mem' concrete cells"""

    def __init__(self, name, size, kind):
        self.name, self.size, self.kind = name, size, kind
        self.cells = {}    # mem: off -> (size, value)
        self.log = []      # out: (off, len, content)


class Stop(Exception):
    """path ends here (loop closed, infeasible)"""


class Restart(Exception):
    pass


class Invariants:
    """per loop: summarised?, dropped templates, memory objects changed, common ranking variables"""

    def __init__(self):
        self.loops = {}
        self.restarts = 0

    def get(self, k):
        return self.loops.get(k)


class World:
    """one path"""
    UNROLL = 300

    def __init__(self, m, script, inv):
        self.m = m
        self.script, self.taken = script, []
        self.inv = inv
        self.lo, self.hi = {}, {}
        self.facts = []
        self.fset = set()
        self.sub = {}
        self.regs = {}
        self.hooks = []
        self._hc = {}
        self.memo = {}
        self.nobj = 0
        self.cur = None
        self.stack = []
        self.ids = {}
        self.divs = {}
        self.steps = 0
        self.cache = {}
        self.accesses = 0
        self.calls = []
        self.openloops = []
        self.fns = set()

    # -------------------------------------------------------------- unknowns
    def sym(self, name, lo=0, hi=(1 << 64) - 1):
        name = self.intern(name)
        if name not in self.lo:
            self.lo[name], self.hi[name] = lo, hi
        return self.norm(L(0, {name: 1}))

    def known(self, name):
        return name in self.ids or name in self.lo

    def intern(self, name):
        if type(name) is str:
            return name
        i = self.ids.get(name)
        if i is None:
            if name[0] == "byte":
                i = "%s[%r]" % (name[1], L(name[2][0], dict(name[2][1])))
            else:
                i = str(name[0])
            if len(i) > 40 or i in self.lo:
                i = "%s~%d" % (i[:30], len(self.ids))
            self.ids[name] = i
        return i

    def fresh(self, base, lo=0, hi=(1 << 64) - 1):
        self.nobj += 1
        return self.sym("%s%d" % (base, self.nobj), lo, hi)

    def norm(self, e):
        e = lin(e)
        while True:
            s = next((s for s in e.d if s in self.sub), None)
            if s is None:
                return e
            k = e.d[s]
            d = dict(e.d)
            del d[s]
            e = L(e.c, d) + self.sub[s].scale(k)

    # ----------------------------------------------------------------- facts
    def add(self, e):
        """assume e >= 0"""
        e = self.norm(e)
        if not e.d:
            if e.c < 0:
                raise Stop()
            return
        if e.key() in self.fset:
            return
        self.fset.add(e.key())
        self.cache = {}
        if len(e.d) == 1:
            (s, k), = e.d.items()
            if k > 0:
                self.lo[s] = max(self.lo[s], -(e.c // k))
            else:
                self.hi[s] = min(self.hi[s], e.c // -k)
            if self.lo[s] == self.hi[s]:
                self.subst(s, L(self.lo[s]))
            elif self.lo[s] > self.hi[s]:
                raise Stop()
            return
        self.facts.append(e)
        # two opposite inequalities are an equation
        if (-e).key() in self.fset:
            self.equate(e)

    def subst(self, s, e):
        self.sub[s] = e
        lo, hi = self.lo[s], self.hi[s]
        old, self.facts, self.fset, self.cache = self.facts, [], set(), {}
        for f in old:
            self.add(self.norm(f))
        if e.d:
            self.add(e - lo)
            self.add(L(hi) - e)

    def equate(self, e):
        """assume e == 0"""
        e = self.norm(e)
        if not e.d:
            if e.c:
                raise Stop()
            return
        g = 0
        for k in e.d.values():
            g = gcd(g, k)
        if e.c % g:
            raise Stop()
        if g > 1:
            e = L(e.c // g, {s: k // g for s, k in e.d.items()})
        c = [s for s, k in e.d.items() if abs(k) == 1]
        if not c:
            self.facts += [e, -e]
            self.cache = {}
            return
        # prefer to eliminate derived unknowns
        s = max(c, key=lambda x: self.order(x))
        k = e.d[s]
        d = dict(e.d)
        del d[s]
        self.subst(s, L(e.c, d).scale(-k))

    def order(self, s):
        # bytes and inputs stay, derived unknowns are expressed by them
        return (not ("[" in s or s in ("inl",)), s)

    def infeasible(self, extra):
        cs = []
        seen = set()
        work = []

        def put(e):
            if e.key() in seen:
                return
            seen.add(e.key())
            cs.append(e)
            work.extend(e.d)
        for e in extra:
            e = self.norm(e)
            if not e.d:
                if e.c < 0:
                    return True
                continue
            put(e)
        syms = set()
        while work:
            s = work.pop()
            if s in syms:
                continue
            syms.add(s)
            for f in self.facts:
                if s in f.d:
                    put(f)
        for s in syms:
            cs.append(L(-self.lo[s], {s: 1}))
            cs.append(L(self.hi[s], {s: -1}))
        return fm(cs)

    def proves(self, e):
        """e >= 0 on this path?"""
        e = self.norm(e)
        if not e.d:
            return e.c >= 0
        k = e.key()
        if k in self.cache:
            return self.cache[k]
        lo = e.c + sum(v * (self.lo[s] if v > 0 else self.hi[s]) for s, v in e.d.items())
        r = lo >= 0 or self.infeasible([-e - 1])
        self.cache[k] = r
        return r

    def equal(self, a, b):
        d = self.norm(lin(a) - lin(b))
        if not d.d:
            return d.c == 0
        return self.proves(d) and self.proves(-d)

    def choose(self, options, text):
        """options: lists of inequalities (>= 0), complete; one is taken"""
        ok = [k for k, o in enumerate(options) if not self.infeasible(o)]
        if not ok:
            raise Stop()
        if len(ok) == 1:
            k = ok[0]
        else:
            n = len(self.taken)
            j = self.script[n] if n < len(self.script) else 0
            k = ok[j]
            self.taken.append((j, len(ok), text, k))
        o = [self.norm(e) for e in options[k]]
        if len(o) == 2 and (o[0] + o[1]).key() == L(0).key():
            self.equate(o[0])
        else:
            for e in o:
                self.add(e)
        return k

    def flag(self, name):
        """uninterpreted truth value"""
        e = self.sym(name, 0, 1)
        return self.choose([[e - 1], [-e]], ["%s" % (name,), "not %s" % (name,)]) == 0

    def is_zero(self, e):
        e = self.norm(e)
        if not e.d:
            return e.c == 0
        if self.proves(e) and self.proves(-e):
            return True
        return self.choose([[e, -e], [e - 1], [-e - 1]], (e, ("=", ">", "<"))) == 0

    def nonneg(self, e):
        e = self.norm(e)
        if not e.d:
            return e.c >= 0
        if self.proves(e):
            return True
        if self.proves(-e - 1):
            return False
        return self.choose([[e], [-e - 1]], (e, (">=", "<"))) == 0

    # ---------------------------------------------------------------- values
    def floor(self, e, k):
        """floor(e / k) for e >= 0"""
        e = self.norm(e)
        if not e.d:
            return L(e.c // k)
        if k == 1:
            return e
        # exact part
        if all(v % k == 0 for v in e.d.values()):
            return L(e.c // k, {s: v // k for s, v in e.d.items()})
        if self.proves(L(k - 1) - e):
            return L(0)
        a = L(e.c // k, {s: v // k for s, v in e.d.items() if v % k == 0})
        r = L(e.c % k, {s: v for s, v in e.d.items() if v % k})
        if a.d and not self.proves(r):
            a, r = L(0), e
        if self.proves(L(k - 1) - r):
            return a
        if r.c == 0 and len(r.d) == 1:
            (s, v), = r.d.items()
            if v == 1 and s in self.divs:
                r0, k0 = self.divs[s]
                return self.norm(a + self.floor(r0, k0 * k))
        for s, (r0, k0) in self.divs.items():
            if k0 == k and self.norm(r0) == r:
                return self.norm(a + L(0, {s: 1}))
        name = ("div", r.key(), k)
        new = not self.known(name)
        q = self.sym(name, 0, (1 << 64) - 1)
        if new:
            self.divs[self.intern(name)] = (r, k)
            self.add(r - q.scale(k))
            self.add(q.scale(k) + (k - 1) - r)
            q = self.norm(q)
        return self.norm(a + q)

    def low(self, e, k):
        return self.norm(lin(e) - self.floor(e, k).scale(k))

    def wrap(self, e, w):
        """e reduced into [0, 2^w) by deciding how often it wraps (at most once either way)"""
        e = self.norm(e)
        m = 1 << w
        if not e.d:
            return L(e.c % m)
        if self.nonneg(e):
            if self.nonneg(L(m - 1) - e):
                return self.norm(e)
            e2 = e - m
            if not self.nonneg(L(m - 1) - e2):
                return self.low(e, m)
            return self.norm(e2)
        e2 = e + m
        if not self.nonneg(e2):
            raise AnalysisError("value far below zero at " + self.where())
        return self.norm(e2)

    def mask(self, a, m, w):
        r = L(0)
        k = 0
        while m >> k:
            if not m >> k & 1:
                k += 1
                continue
            j = k
            while m >> j & 1:
                j += 1
            hi = self.floor(a, 1 << j) if j < w else L(0)
            r = r + (self.floor(a, 1 << k) - hi.scale(1 << (j - k))).scale(1 << k)
            k = j
        return self.norm(r)

    def disjoint_or(self, a, b):
        for x, y in ((a, b), (b, a)):
            for k in (8, 16, 32, 1, 2, 3, 4, 5, 6, 7, 24, 40, 48, 56):
                n = 1 << k
                if x.c % n == 0 and all(v % n == 0 for v in x.d.values()) and self.proves(L(n - 1) - y):
                    return self.norm(x + y)
        return None

    def binop(self, op, w, a, b):
        if a is U or b is U:
            raise Finding("undef", "use of an uninitialised value", self.where())
        if type(a) is P or type(b) is P:
            if op == "sub" and type(a) is P and type(b) is P and a.r == b.r:
                return self.wrap(a.o - b.o, w)
            if op == "add":
                if type(b) is P:
                    a, b = b, a
                if type(b) is not P:
                    return P(a.r, self.norm(a.o + self.signed(b, w)))
            if op == "sub" and type(a) is P and type(b) is not P:
                return P(a.r, self.norm(a.o - self.signed(b, w)))
            raise AnalysisError("%s on addresses at %s" % (op, self.where()))
        a, b = self.norm(a), self.norm(b)
        m = 1 << w
        if op == "add":
            return self.wrap(a + b, w)
        if op == "sub":
            return self.wrap(a - b, w)
        if not a.d and not b.d:
            x, y = a.c, b.c
            if op == "and":
                return L(x & y)
            if op == "or":
                return L(x | y)
            if op == "xor":
                return L(x ^ y)
            if op == "shl":
                return L((x << y) % m)
            if op == "lshr":
                return L(x >> y)
            if op == "ashr":
                return L(((x - (m if x >> (w - 1) else 0)) >> y) % m)
            if op == "mul":
                return L(x * y % m)
            if op == "udiv":
                return L(x // y)
            if op == "urem":
                return L(x % y)
            if op in ("sdiv", "srem"):
                x, y = x - (m if x >> (w - 1) else 0), y - (m if y >> (w - 1) else 0)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return L((q if op == "sdiv" else x - q * y) % m)
        if op == "and":
            if not a.d:
                a, b = b, a
            if not b.d:
                return self.mask(a, b.c, w)
        if op in ("or", "xor"):
            if not a.d:
                a, b = b, a
            if b == L(0):
                return a
            r = self.disjoint_or(a, b)
            if r is not None:
                return r
            if op == "xor" and b == L(m - 1):
                return self.norm(L(m - 1) - a)
            if w == 1:
                x, y = self.is_zero(a), self.is_zero(b)
                return L(int((not x) or (not y)) if op == "or" else int(x != y))
            r = self.fresh("or", 0, m - 1)
            if op == "or":
                self.add(r - a)
                self.add(r - b)
            self.add(a + b - r)
            return r
        if op == "shl" and not b.d:
            return self.low(a.scale(1 << b.c), m)
        if op in ("lshr", "udiv") and not b.d:
            return self.floor(a, 1 << b.c if op == "lshr" else b.c)
        if op == "urem" and not b.d:
            return self.low(a, b.c)
        if op == "ashr" and not b.d and self.proves(L((m >> 1) - 1) - a):
            return self.floor(a, 1 << b.c)
        if op in ("sdiv", "srem") and not b.d and not b.c >> (w - 1) and self.nonneg(L((m >> 1) - 1) - a):
            return self.floor(a, b.c) if op == "sdiv" else self.low(a, b.c)
        if op == "mul":
            if not a.d:
                a, b = b, a
            if not b.d:
                return self.low(a.scale(b.c), m)
        return self.fresh(op, 0, m - 1)

    def signed(self, a, w):
        a = self.norm(a)
        if not a.d:
            return L(a.c - (1 << w) if a.c >> (w - 1) & 1 else a.c)
        return a if self.nonneg(L((1 << (w - 1)) - 1) - a) else self.norm(a - (1 << w))

    def icmp(self, p, w, a, b):
        if a is U or b is U:
            raise Finding("undef", "branch on an uninitialised value", self.where())
        if type(a) is P or type(b) is P:
            if type(a) is P and type(b) is P and a.r == b.r:
                a, b = a.o, b.o
                p = {"s": "u"}.get(p[0], p[0]) + p[1:] if p not in ("eq", "ne") else p
            elif p in ("eq", "ne"):
                if type(a) is P and type(b) is P or any(type(x) is L and x == L(0) for x in (a, b)):
                    return L(int(p == "ne"))
                raise AnalysisError("comparison of addresses at " + self.where())
            else:
                raise AnalysisError("comparison of addresses at " + self.where())
        elif p[0] == "s":
            a, b = self.signed(a, w), self.signed(b, w)
        a, b = self.norm(a), self.norm(b)
        if p in ("eq", "ne"):
            return L(int(self.is_zero(a - b) == (p == "eq")))
        q = p[1:]
        if q == "lt":
            return L(int(self.nonneg(b - a - 1)))
        if q == "le":
            return L(int(self.nonneg(b - a)))
        if q == "gt":
            return L(int(self.nonneg(a - b - 1)))
        if q == "ge":
            return L(int(self.nonneg(a - b)))
        raise AnalysisError("icmp " + p)

    # ---------------------------------------------------------------- memory
    def region(self, name, size, kind):
        self.regs[name] = Region(name, lin(size), kind)
        return P(name, 0)

    def local(self, size, name="tmp"):
        self.nobj += 1
        return self.region("%s#%d" % (name, self.nobj), size, "mem")

    def where(self):
        if self.cur is None:
            return "?"
        f, i = self.cur
        return "%s in %s" % (self.m.loc(i.loc), f.dem.split("(")[0])

    def access(self, p, n, what):
        self.accesses += 1
        if type(p) is not P:
            raise Finding("deref", "%s through %r" % (what, p), self.where())
        r = self.regs.get(p.r)
        if r is None:
            raise AnalysisError("unknown region %s" % p.r)
        o, n = self.norm(p.o), self.norm(n)
        if not self.proves(o):
            raise Finding("oob", "%s of %r byte(s) at offset %r of %s: not proved to be at or after its start, when %s" % (what, n, o, r.name, self.path()), self.where())
        if not self.proves(self.norm(r.size) - o - n):
            raise Finding("oob", "%s of %r byte(s) at offset %r of %s (%r bytes) is not proved to stay inside, when %s" % (what, n, o, r.name, self.norm(r.size), self.path()), self.where())
        return r, o, n

    def path(self):
        def one(t):
            t, k = t[2], t[3]
            if type(t) is list:
                return t[k]
            return "%r %s 0" % (t[0], t[1][k])
        return "; ".join(one(t) for t in self.taken[-8:]) or "always"

    def load(self, p, n, ptr=False):
        r, o, _ = self.access(p, L(n), "read")
        if r.kind == "in":
            v = L(0)
            for k in range(n):
                v = v + self.byte(r.name, o + k).scale(1 << (8 * k))
            return self.norm(v)
        if r.kind == "out":
            for off, ln, c in reversed(r.log):
                if self.equal(off, o) and self.equal(ln, n):
                    if type(c) is L:
                        return self.norm(c)
            raise AnalysisError("read back of output at " + self.where())
        if o.d:
            raise AnalysisError("local object indexed by an unknown at " + self.where())
        c = r.cells.get(o.c)
        if c and c[0] == n:
            v = c[1]
            return self.norm(v) if type(v) is L else P(v.r, self.norm(v.o)) if type(v) is P else v
        v = L(0)
        for k in range(n):
            x = self.byte_of(r, o.c + k)
            if x is U:
                return U
            v = v + x.scale(1 << (8 * k))
        return self.norm(v)

    def byte_of(self, r, k):
        for o in range(k, k - 9, -1):
            c = r.cells.get(o)
            if c and o + c[0] > k:
                if type(c[1]) is not L:
                    if c[1] is U:
                        return U
                    raise AnalysisError("part of an address read at " + self.where())
                return self.norm(self.low(self.floor(c[1], 1 << (8 * (k - o))), 256)) if c[0] > 1 else self.norm(c[1])
        return U

    def byte(self, reg, off):
        off = self.norm(off)
        b = self.sym(("byte", reg, off.key()), 0, 255)
        # the same byte under another name of its offset
        for k in list(self.memo.get(("bytes", reg), ())):
            if k != off.key():
                e = L(k[0], dict(k[1]))
                if self.norm(e) == off:
                    return self.sym(("byte", reg, k), 0, 255)
        self.memo.setdefault(("bytes", reg), []).append(off.key())
        return b

    def store(self, p, v, n):
        r, o, _ = self.access(p, L(n), "write")
        if r.kind == "in":
            raise Finding("ro", "write to the input", self.where())
        if r.kind == "out":
            if type(v) is not L:
                raise AnalysisError("address stored to output at " + self.where())
            if n > 1:
                for k in range(n):
                    r.log.append((o + k, L(1), self.low(self.floor(v, 1 << (8 * k)), 256)))
            else:
                r.log.append((o, L(1), v))
            return
        if o.d:
            raise AnalysisError("local object indexed by an unknown at " + self.where())
        self.clear(r, o.c, n)
        r.cells[o.c] = (n, v)

    def clear(self, r, o, n):
        for k in range(o - 8, o + n):
            c = r.cells.get(k)
            if c and k + c[0] > o and k < o + n and not (k == o and c[0] == n):
                if type(c[1]) is P:
                    del r.cells[k]
                    continue
                bs = [self.byte_of(r, j) for j in range(k, k + c[0])]
                del r.cells[k]
                for j, b in enumerate(bs):
                    if not o <= k + j < o + n:
                        r.cells[k + j] = (1, b)
        r.cells.pop(o, None)

    def copy(self, d, s, n):
        n = self.norm(n)
        if self.is_zero(n):
            return
        n = self.norm(n)
        rs, so, _ = self.access(s, n, "read")
        rd, do, _ = self.access(d, n, "write")
        if rd.kind == "in":
            raise Finding("ro", "write to the input", self.where())
        if rd.kind == "mem":
            if n.d or do.d or so.d and rs.kind == "mem":
                raise AnalysisError("copy of unknown length into a local object at " + self.where())
            if rs.kind == "mem" and (rs is not rd or so.c >= do.c + n.c or do.c >= so.c + n.c):
                for k in range(n.c):
                    c = rs.cells.get(so.c + k)
                    if c and c[0] > 1 and k + c[0] <= n.c:
                        self.store(P(rd.name, do + k), c[1], c[0])
                    elif not any((so.c + k - j) in rs.cells and rs.cells[so.c + k - j][0] > j for j in range(1, 9)) or c:
                        self.store(P(rd.name, do + k), self.byte_of(rs, so.c + k), 1)
                return
            bs = [self.byte_of(rs, so.c + k) if rs.kind == "mem" else self.byte(rs.name, so + k) for k in range(n.c)]
            for k, b in enumerate(bs):
                self.store(P(rd.name, do + k), b, 1)
            return
        if rs.kind == "mem":
            for k in range(n.c):
                rd.log.append((do + k, L(1), self.byte_of(rs, so.c + k)))
            return
        rd.log.append((do, n, ("run", rs.name, so.key())))

    # ------------------------------------------------------------- execution
    def hook(self, pat, h):
        self.hooks.append((re.compile(pat), h))

    def operand(self, regs, a):
        if type(a) is int:
            v = regs[a]
            return self.norm(v) if type(v) is L else P(v.r, self.norm(v.o)) if type(v) is P else v
        k = a[0]
        if k == "c":
            return L(int(a[1]))
        if k == "g":
            n = self.m.aliases.get(a[1], a[1])
            if n in self.m.funcs:
                return Fn(n)
            return P(self.glob(n), a[2])
        if k in ("n", "z"):
            return L(0)
        if k == "u":
            return U
        if k == "ce" and a[1] in ("ptrtoint", "inttoptr", "bitcast"):
            return self.operand(regs, a[2][0])
        return None

    def glob(self, n):
        key = "@" + n
        if key not in self.regs:
            g = self.m.globals[n]
            r = Region(n, L(g["size"]), "mem")
            if g["init"]:
                for i, b in enumerate(bytes.fromhex(g["data"])):
                    r.cells[i] = (1, L(b))
                for roff, op in g["rel"]:
                    t = self.m.aliases.get(op[1], op[1])
                    v = Fn(t) if t in self.m.funcs else P("@" + t, op[2])
                    if type(v) is P:
                        self.glob(t)
                    for k in range(8):
                        r.cells.pop(roff + k, None)
                    r.cells[roff] = (8, v)
            self.regs[key] = r
        return key

    def run(self, f, args):
        if f.decl:
            raise AnalysisError("undefined function " + f.dem)
        if len(self.stack) > 60:
            raise Finding("recursion", "recursion without bound", self.where())
        regs = dict(enumerate(args))
        f.blocks
        self.fns.add(f.name)
        self.stack.append((f, args, self.cur))
        b, prev = 0, None
        visits = {}
        depth0 = len(self.openloops)
        while True:
            ins = f.blocks[b]
            # leaving summarised loops
            while len(self.openloops) > depth0 and b not in f.loopblocks[self.openloops[-1][0]]:
                self.openloops.pop()
            n = 0
            vals = []
            while ins[n].op == "phi":
                for op, pb in ins[n].a:
                    if pb == prev:
                        vals.append((ins[n].id, self.operand(regs, op)))
                        break
                n += 1
            if b in f.headers:
                self.cur = (f, ins[n])
                inside = prev is not None and prev in f.loopblocks[b]
                lk = (f.name, b)
                info = self.inv.get(lk)
                if info is not None:
                    if inside:
                        self.close_loop(f, b, info, dict(vals))
                        raise Stop()
                    vals = self.open_loop(f, b, info, vals, regs)
                else:
                    visits[b] = visits.get(b, 0) + 1 if inside else 1
                    if visits[b] > self.UNROLL:
                        self.inv.loops[lk] = {"dropped": set(), "objs": set(), "rank": None, "where": self.where()}
                        raise Restart()
            for k, v in vals:
                regs[k] = v
            nxt = None
            for i in ins[n:]:
                self.steps += 1
                if self.steps > 2000000:
                    raise AnalysisError("step budget")
                self.cur = (f, i)
                op = i.op
                if op == "br":
                    s = i.x["s"]
                    if len(s) == 1:
                        nxt = s[0]
                    else:
                        c = self.operand(regs, i.a[0])
                        if c is U:
                            raise Finding("undef", "branch on an uninitialised value", self.where())
                        nxt = s[1] if self.is_zero(c) else s[0]
                    break
                if op == "switch":
                    v = self.operand(regs, i.a[0])
                    s = i.x["s"]
                    nxt = s[0]
                    for cv, t in s[1:]:
                        if self.is_zero(lin(v) - int(cv)):
                            nxt = t
                            break
                    break
                if op == "ret":
                    r = self.operand(regs, i.a[0]) if i.a else None
                    self.stack.pop()
                    del self.openloops[depth0:]
                    return r
                if op == "unreachable":
                    raise Stop()
                self.instr(regs, i, f)
                if op == "invoke":
                    nxt = i.x["s"][0]
                    break
            prev, b = b, nxt

    def instr(self, regs, i, f):
        op = i.op
        o = lambda k: self.operand(regs, i.a[k])
        if op == "load":
            if i.ty.k not in ("i", "p"):
                raise AnalysisError("load of an aggregate at " + self.where())
            v = self.load(o(0), i.ty.size)
            regs[i.id] = v
        elif op == "store":
            t = self.m.types[i.x["st"]]
            if t.k not in ("i", "p"):
                raise AnalysisError("store of an aggregate at " + self.where())
            self.store(o(1), o(0), t.size)
        elif op == "getelementptr":
            p = o(0)
            off = L(i.x["co"])
            for idx, sc, t in i.x["var"]:
                v = self.operand(regs, idx)
                if v is U:
                    raise Finding("undef", "uninitialised index", self.where())
                off = off + self.signed(v, self.m.types[t].w).scale(sc)
            if type(p) is not P:
                if type(p) is L and not self.norm(off).d and not p.d:
                    regs[i.id] = L(p.c + off.c)
                    return
                raise Finding("deref", "address arithmetic on %r" % (p,), self.where())
            regs[i.id] = P(p.r, self.norm(p.o + off))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            regs[i.id] = self.binop(op, i.ty.w, o(0), o(1))
        elif op == "icmp":
            t = self.m.types[i.x["ot"]]
            regs[i.id] = self.icmp(i.x.get("p") or i.x.get("pred"), t.w or 64, o(0), o(1))
        elif op == "trunc":
            v = o(0)
            if v is U:
                regs[i.id] = U
            else:
                regs[i.id] = self.low(v, 1 << i.ty.w)
        elif op == "zext":
            regs[i.id] = o(0)
        elif op == "sext":
            t = self.m.types[i.x["ot"]]
            v = self.signed(o(0), t.w)
            regs[i.id] = self.wrap(v, i.ty.w)
        elif op == "select":
            c = o(0)
            regs[i.id] = o(2) if self.is_zero(c) else o(1)
        elif op == "alloca":
            n = o(0)
            regs[i.id] = self.local(i.x["sz"] * n.c, i.x.get("name") or "tmp")
        elif op in ("bitcast", "ptrtoint", "inttoptr", "freeze"):
            regs[i.id] = o(0)
        elif op in ("call", "invoke"):
            r = self.call(i, [self.operand(regs, a) for a in i.a], self.operand(regs, i.x["f"]))
            if i.id >= 0:
                regs[i.id] = r
        else:
            raise AnalysisError("instruction %s at %s" % (op, self.where()))

    def call(self, i, args, fv):
        if type(fv) is not Fn:
            raise AnalysisError("indirect call at " + self.where())
        g = self.m.funcs[fv.n]
        n = g.name
        saved = self.cur
        for p, h in self.hooks:
            if p.search(g.dem):
                r = h(self, g, args)
                if r is not NotImplemented:
                    self.cur = saved
                    return r
        if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
            self.copy(args[0], args[1], args[2])
            return args[0]
        if n.startswith("llvm.memset") or n == "memset":
            ln = self.norm(args[2])
            if self.is_zero(ln):
                return args[0]
            r, o, ln = self.access(args[0], ln, "write")
            if r.kind == "mem" and not ln.d and not o.d:
                for k in range(ln.c):
                    self.store(P(r.name, o + k), args[1], 1)
            elif r.kind == "out":
                r.log.append((o, ln, ("fill", self.norm(args[1]).key())))
            else:
                raise AnalysisError("memset at " + self.where())
            return args[0]
        m = re.match(r"llvm\.(u|s)(min|max)\.i(\d+)", n)
        if m:
            c = self.icmp(m.group(1) + ("lt" if m.group(2) == "min" else "gt"), int(m.group(3)), args[0], args[1])
            return args[0] if c == L(1) else args[1]
        if n.startswith("llvm.expect"):
            return args[0]
        if n.startswith("llvm."):
            return L(0) if i.id >= 0 and not n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental")) else None
        if n in ("printf", "puts", "putchar", "fprintf", "fputc", "fputs", "fflush"):
            return self.fresh(n, 0, (1 << 32) - 1)
        if g.decl:
            raise AnalysisError("call to unmodelled external %s at %s" % (g.dem, self.where()))
        for k, (h, a, _) in enumerate(self.stack):
            if h is g and self.memo.get("recursion"):
                r = self.memo["recursion"](self, g, a, args)
                self.cur = saved
                return r
        r = self.run(g, args)
        self.cur = saved
        return r

    # ----------------------------------------------------------------- loops
    def loopvars(self, info, vals):
        out = []
        for k, v in vals:
            out.append((("r", k), v))
        for ob in sorted(info["objs"]):
            for off, (n, v) in sorted(self.regs[ob].cells.items()):
                out.append((("m", ob.split("#")[0], off, n), v))
        return out

    def num(self, v):
        return v.o if type(v) is P else v if type(v) is L else None

    def templates(self, info, entry, cur):
        """(name, list of inequalities about the current values given the entry values)"""
        e, c = dict(entry), dict(cur)
        ks = [k for k in e if self.num(e[k]) is not None and k in c and self.num(c[k]) is not None]
        T = []
        for k in ks:
            a, b = self.num(e[k]), self.num(c[k])
            T.append((("ge", k), [b - a]))
            T.append((("le", k), [a - b]))
            for nm, bound in self.bounds():
                T.append((("bound", k, nm), [bound - b]))
        for x in range(len(ks)):
            for y in range(x + 1, len(ks)):
                p, q = ks[x], ks[y]
                d = (self.num(c[p]) + self.num(c[q])) - (self.num(e[p]) + self.num(e[q]))
                T.append((("sum", p, q), [d, -d]))
                d = (self.num(c[p]) - self.num(c[q])) - (self.num(e[p]) - self.num(e[q]))
                T.append((("diff", p, q), [d, -d]))
        return T

    def bounds(self):
        out = []
        for k, r in self.regs.items():
            if r.kind in ("in", "out"):
                out.append((("size", k), r.size))
        f, args, _ = self.stack[-1]
        for k, a in enumerate(args):
            if type(a) is L:
                out.append((("arg", k), a))
        for k, v in self.memo.get("lens", {}).items():
            out.append((("len", k), v))
        return out

    def open_loop(self, f, b, info, vals, regs):
        for ob in list(self.regs):
            self.regs[ob].mark = None
        entry = self.loopvars(info, vals)
        # templates must hold on entry
        for nm, cs in self.templates(info, entry, entry):
            if nm not in info["dropped"] and not all(self.proves(c) for c in cs):
                info["dropped"].add(nm)
        cur = []
        for k, v in entry:
            if type(v) is L:
                cur.append((k, self.fresh("it", 0, (1 << 64) - 1)))
            elif type(v) is P:
                cur.append((k, P(v.r, self.fresh("at", 0, (1 << 63)))))
            else:
                cur.append((k, U))
        for nm, cs in self.templates(info, entry, cur):
            if nm not in info["dropped"]:
                for c in cs:
                    if len(cs) == 2:
                        self.equate(c)
                        break
                    self.add(c)
        cur = [(k, self.norm(v) if type(v) is L else P(v.r, self.norm(v.o)) if type(v) is P else v) for k, v in cur]
        cells = {o: dict(r.cells) for o, r in self.regs.items() if r.kind == "mem"}
        for ob in info["objs"]:
            if ob in self.regs:
                for off in list(self.regs[ob].cells):
                    self.regs[ob].cells[off] = (self.regs[ob].cells[off][0], U)
        out = []
        for k, v in cur:
            if k[0] == "r":
                out.append((k[1], v))
            else:
                for ob in info["objs"]:
                    if ob in self.regs and ob.split("#")[0] == k[1]:
                        self.regs[ob].cells[k[2]] = (k[3], v)
        logs = {o: len(r.log) for o, r in self.regs.items() if r.kind == "out"}
        snap = {o: dict(r.cells) for o, r in self.regs.items() if r.kind == "mem"}
        self.openloops.append((b, info, entry, cur, snap, logs))
        return out

    def close_loop(self, f, b, info, vals):
        rec = self.openloops[-1]
        assert rec[0] == b
        _, _, entry, cur, snap, logs = rec
        for o, n in logs.items():
            if len(self.regs[o].log) != n:
                raise AnalysisError("output written in a loop of unknown length at " + self.where())
        ch = False
        for o, cells in snap.items():
            now = self.regs[o].cells
            if o not in info["objs"] and any(now.get(k) != cells.get(k) for k in set(now) | set(cells)):
                info["objs"].add(o)
                ch = True
        if ch:
            raise Restart()
        new = self.loopvars(info, [(k[1], vals[k[1]]) for k, _ in cur if k[0] == "r"])
        for nm, cs in self.templates(info, entry, new):
            if nm not in info["dropped"] and not all(self.proves(self.norm(c)) for c in cs):
                info["dropped"].add(nm)
                ch = True
        if ch:
            raise Restart()
        if self.memo.get("failed") and not any(type(v) is L and self.proves(v - 1) and k[0] == "r" and dict(entry).get(k) == L(0) for k, v in new):
            raise Finding("swallowed", "the loop goes on after the error of %s" % self.memo["failed"][-1], self.where())
        old = dict(cur)
        rank = set()
        for k, v in new:
            a, x = self.num(v), self.num(old.get(k))
            if a is None or x is None:
                continue
            if self.proves(self.norm(a - x - 1)):
                rank.add((k, "+"))
            if self.proves(self.norm(x - a - 1)):
                rank.add((k, "-"))
        info["rank"] = rank if info["rank"] is None else info["rank"] & rank


def fm(cs):
    """True when the conjunction of cs (each >= 0) has no integer solution (sufficient test)"""
    cur = {}

    def norm(e):
        if not e.d:
            return e
        g = 0
        for k in e.d.values():
            g = gcd(g, k)
        if g > 1:
            e = L(e.c // g, {s: k // g for s, k in e.d.items()})
        return e

    def put(d, e):
        e = norm(e)
        if not e.d:
            return e.c < 0
        k = frozenset(e.d.items())
        if k in d:
            if e.c < d[k].c:
                d[k] = e
        else:
            d[k] = e
        o = frozenset((s, -v) for s, v in e.d.items())
        return o in d and d[o].c + d[k].c < 0
    for e in cs:
        if put(cur, e):
            return True
    while cur:
        pos, neg = {}, {}
        for e in cur.values():
            for s, k in e.d.items():
                t = pos if k > 0 else neg
                t[s] = t.get(s, 0) + 1
        best = None
        for s in {**pos, **neg}:
            c = pos.get(s, 0) * neg.get(s, 0) - pos.get(s, 0) - neg.get(s, 0)
            if best is None or c < best[0]:
                best = (c, s)
        s = best[1]
        P_, N_, rest = [], [], {}
        for e in cur.values():
            k = e.d.get(s, 0)
            if k > 0:
                P_.append(e)
            elif k < 0:
                N_.append(e)
            else:
                rest[frozenset(e.d.items())] = e
        if len(P_) * len(N_) > 4000:
            return False
        cur = rest
        for a in P_:
            for b in N_:
                if put(cur, a.scale(-b.d[s]) + b.scale(a.d[s])):
                    return True
    return False


def explore(m, job, limit=20000, unroll=300):
    """run job(world) on every path; job returns a list of findings (strings) or None"""
    inv = Invariants()
    while True:
        inv.restarts += 1
        if inv.restarts > 400:
            raise AnalysisError("loop invariants do not settle")
        for i in inv.loops.values():
            i["rank"] = None
        script = []
        npaths = 0
        out = []
        acc = 0
        fns = set()
        try:
            while True:
                w = World(m, script, inv)
                w.UNROLL = unroll
                npaths += 1
                if npaths > limit:
                    raise AnalysisError("more than %d paths" % limit)
                try:
                    r = job(w)
                    if r:
                        out += r
                except Stop:
                    pass
                except Finding as e:
                    out.append((e.where, "%s: %s" % (e.kind, e.msg)))
                acc += w.accesses
                fns |= w.fns
                t = w.taken
                while t and t[-1][0] + 1 >= t[-1][1]:
                    t.pop()
                if not t or len(out) > 20:
                    break
                script = [x[0] for x in t]
                script[-1] += 1
        except Restart:
            continue
        for k, i in inv.loops.items():
            if not i["rank"]:
                out.append((i["where"], "no variable moves strictly in one direction on every iteration of this loop: termination not proved"))
        return out, {"paths": npaths, "accesses": acc, "functions": sorted(fns), "loops with invariants": len(inv.loops)}
