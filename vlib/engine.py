"""Abstract interpreter over resolved LLVM IR.

Forward dataflow with a pluggable value domain.  At a branch whose condition is not a constant of
the domain both successors are analysed and the abstract states are joined again where control
flow meets (no path enumeration: two states that reach the same block in the same iteration of
the enclosing loops are always merged, cell by cell, with a gated `select`).  No solver is used
and nothing is executed."""
import re
from functools import partial
from operator import is_not
import sys
from .ir import AnalysisError, Func

sys.setrecursionlimit(100000)


class Finding(Exception):
    """A definite defect met during the analysis (out-of-bounds access, ...)."""

    def __init__(self, kind, msg, where=None):
        Exception.__init__(self, msg)
        self.kind = kind
        self.msg = msg
        self.where = where


class _Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class Ptr:
    __slots__ = ("obj", "off", "sym")

    def __init__(self, obj, off=0, sym=()):
        self.obj = obj
        self.off = off
        self.sym = sym

    def __repr__(self):
        return "&%s+%s%s" % (self.obj, self.off, self.sym if self.sym else "")

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.off == self.off and o.sym == self.sym

    def __hash__(self):
        return hash((self.obj, self.off))


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "fn:" + self.name


class Sel:
    """gated value for non-scalar values (pointers, undef)"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "sel(%s,%s,%s)" % (self.c, self.a, self.b)


_isset = partial(is_not, None)


class Part:
    """byte `i` of the `n`-byte value `v`"""
    __slots__ = ("v", "i", "n")

    def __init__(self, v, i, n):
        self.v, self.i, self.n = v, i, n

    def __eq__(self, o):
        return self is o or isinstance(o, Part) and self.i == o.i and self.n == o.n and (self.v is o.v or self.v == o.v)

    def __hash__(self):
        return hash((self.i, self.n))

    def __repr__(self):
        return "%s[%d/%d]" % (self.v, self.i, self.n)


class Obj:
    __slots__ = ("name", "size", "cells", "default", "ro", "kind", "owner", "written")

    def __init__(self, name, size, kind, default=None, ro=False):
        self.name = name
        self.size = size      # None = unbounded
        self.kind = kind
        self.cells = {}
        self.default = default  # off -> cell, or None = uninitialised
        self.ro = ro
        self.owner = None

    def clone(self, owner):
        o = Obj(self.name, self.size, self.kind, self.default, self.ro)
        o.cells = dict(self.cells)
        o.owner = owner
        return o


class State:
    __slots__ = ("mem", "paths", "ext", "uid")
    # paths: frozenset of traces; trace = tuple of (condkey, polarity)
    _n = 0

    def __init__(self):
        State._n += 1
        self.uid = State._n
        self.mem = {}
        self.paths = frozenset([()])
        self.ext = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.paths = self.paths
        s.ext = dict(self.ext)
        # ownership: an Obj may be mutated only by its owner
        return s


class Thrown:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return "throw(%s)" % (self.info,)


class Engine:
    def __init__(self, module, domain, max_steps=20000000):
        self.m = module
        self.d = domain
        domain.eng = self
        self.hooks = []          # (compiled regex on demangled name, handler)
        self._hookcache = {}
        self.nobj = 0
        self.condvals = {}
        self.stats = {"functions": set(), "instrs": 0, "merges": 0, "calls": 0, "blocks": 0}
        self.steps = 0
        self.max_steps = max_steps
        self.undef_uses = []
        self.cur = None
        self.callstack = []
        self.globals_obj = {}
        self.max_iter = 100000
        self.trace_calls = None
        self.on_store = None
        self.on_load = None
        self.symload_log = None

    # ------------------------------------------------------------------ hooks
    def hook(self, pattern, handler):
        self.hooks.insert(0, (re.compile(pattern), handler))
        self._hookcache.clear()

    def find_hook(self, f):
        k = f.name
        if k in self._hookcache:
            return self._hookcache[k]
        r = None
        for p, h in self.hooks:
            if p.search(f.dem):
                r = h
                break
        self._hookcache[k] = r
        return r

    # ----------------------------------------------------------------- memory
    def new_obj(self, st, name, size, kind="heap", default=None, ro=False):
        self.nobj += 1
        key = "%s#%d" % (name, self.nobj)
        o = Obj(name, size, kind, default, ro)
        o.owner = st.uid
        st.mem[key] = o
        return key

    def obj(self, st, key):
        o = st.mem.get(key)
        if o is None:
            raise Finding("deref", "dereference of invalid pointer %s" % (key,), self.where())
        return o

    def wobj(self, st, key):
        o = self.obj(st, key)
        if o.owner != st.uid:
            o = o.clone(st.uid)
            st.mem[key] = o
        return o

    def global_ptr(self, st, name, off):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs:
            return FnPtr(name)
        key = "@" + name
        if key not in st.mem:
            g = self.m.globals.get(name)
            if g is None:
                raise AnalysisError("unknown global " + name)
            o = Obj(name, g["size"], "global", None, g["const"])
            if g["init"]:
                data = bytes.fromhex(g["data"])
                for i, b in enumerate(data):
                    o.cells[i] = b
                for roff, op in g["rel"]:
                    if op[0] == "g":
                        t = self.m.aliases.get(op[1], op[1])
                        v = FnPtr(t) if t in self.m.funcs else Ptr("@" + t, op[2])
                        if isinstance(v, Ptr):
                            self._want(st, t)
                        for i in range(8):
                            o.cells[roff + i] = Part(v, i, 8)
            o.owner = None
            st.mem[key] = o
        return Ptr(key, off)

    def _want(self, st, name):
        if "@" + name not in st.mem and name in self.m.globals:
            self.global_ptr(st, name, 0)

    def where(self):
        if self.cur is None:
            return "?"
        f, i = self.cur
        return "%s in %s" % (self.m.loc(i.loc), f.dem)

    def check_bounds(self, o, off, n, what):
        if off < 0 or (o.size is not None and off + n > o.size):
            raise Finding("oob", "%s of %d byte(s) at offset %d of %s (size %s)" % (what, n, off, o.name, o.size),
                          self.where())

    def load_cell(self, st, o, off):
        c = o.cells.get(off)
        if c is None:
            if o.default is not None:
                c = o.default(off)
                o.cells[off] = c
            else:
                return UNDEF
        return c

    def load_bytes(self, st, p, n):
        if isinstance(p, Sel):
            a, b = self.load_bytes(st, p.a, n), self.load_bytes(st, p.b, n)
            return a if a == b else self.split(self.select(p.c, self.join_bytes(a), self.join_bytes(b)), n)
        o = self.obj(st, p.obj)
        self.check_bounds(o, p.off, n, "read")
        if self.on_load:
            self.on_load(self, st, p, n)
        g, f = o.cells.get, p.off
        r = [g(i) for i in range(f, f + n)]
        if any(x is None for x in r) if n < 16 else not all(map(_isset, r)):
            return [self.load_cell(st, o, f + i) for i in range(n)]
        return r

    def join_bytes(self, cells, ty=None):
        n = len(cells)
        c0 = cells[0]
        if type(c0) is int:
            for c in cells:
                if type(c) is not int:
                    break
            else:
                return int.from_bytes(bytes(cells), "little")
        if type(c0) is Part and c0.i == 0 and c0.n == n and (n > 1 or self.d.whole_bytes):
            v = c0.v
            for k in range(1, n):
                c = cells[k]
                if type(c) is not Part or c.i != k or c.n != n or (c.v is not v and c.v != v):
                    break
            else:
                return v
        if all(c is UNDEF for c in cells):
            return UNDEF
        return self.d.join(cells)

    def load(self, st, p, ty, asm=()):
        if isinstance(p, Sel):
            return self.select(p.c, self.load(st, p.a, ty, asm + ((p.c, True),)), self.load(st, p.b, ty, asm + ((p.c, False),)))
        if ty.k == "v":
            if ty.elt.k == "i" and ty.elt.w == 1:
                raise AnalysisError("i1 vector load")
            es = ty.elt.size
            return tuple(self.load(st, self.padd(p, i * es), ty.elt) for i in range(ty.n))
        if ty.k == "s":
            return tuple(self.load(st, self.padd(p, o), t) for o, t in ty.fields)
        if ty.k == "a":
            return tuple(self.load(st, self.padd(p, i * ty.eltsize), ty.elt) for i in range(ty.n))
        if not isinstance(p, Ptr):
            raise Finding("deref", "load through non-pointer %r" % (p,), self.where())
        if p.obj is None:
            raise Finding("deref", "null pointer read", self.where())
        if p.sym:
            return self.sym_load(st, p, ty.size)
        cells = self.load_bytes(st, p, ty.size)
        for c, val in asm:
            cells = [self.restrict(x, c, val) for x in cells]
        v = self.join_bytes(cells)
        if ty.k == "p" and v == 0 and isinstance(v, int):
            return NULL
        if ty.k == "i" and ty.w % 8:
            v = self.trunc(v, ty.size * 8, ty.w)
        return v

    def sym_load(self, st, p, n):
        r = self.d.sym_load(st, p, n)
        return r

    def split(self, v, n):
        if type(v) is int:
            return list(v.to_bytes(n, "little"))
        if v is UNDEF:
            return [UNDEF] * n
        if isinstance(v, (Ptr, FnPtr, Sel)):
            if isinstance(v, Ptr) and v.obj is None and not v.sym and v.off == 0:
                return [0] * n
            return [Part(v, i, n) for i in range(n)]
        return self.d.split(v, n)

    def store_cells(self, st, p, cells):
        if isinstance(p, Sel):
            for q, cond in ((p.a, True), (p.b, False)):
                old = self.load_bytes(st, q, len(cells))
                new = [self.sel_cell(p.c, c, o) if cond else self.sel_cell(p.c, o, c) for c, o in zip(cells, old)]
                self.store_cells(st, q, new)
            return
        if not isinstance(p, Ptr) or p.obj is None:
            raise Finding("deref", "store through %r" % (p,), self.where())
        if p.sym:
            return self.d.sym_store(st, p, cells)
        o = self.wobj(st, p.obj)
        self.check_bounds(o, p.off, len(cells), "write")
        if o.ro:
            raise Finding("ro", "write to read-only object %s" % o.name, self.where())
        if self.on_store:
            self.on_store(self, st, p, cells)
        off = p.off
        for i, c in enumerate(cells):
            o.cells[off + i] = c

    def store(self, st, p, v, ty):
        if ty.k == "v":
            es = ty.elt.size
            if v is UNDEF:
                v = (UNDEF,) * ty.n
            for i, e in enumerate(v):
                self.store(st, self.padd(p, i * es), e, ty.elt)
            return
        if ty.k == "s":
            if v is UNDEF:
                v = (UNDEF,) * len(ty.fields)
            for (o, t), e in zip(ty.fields, v):
                self.store(st, self.padd(p, o), e, t)
            return
        if ty.k == "a":
            if v is UNDEF:
                v = (UNDEF,) * ty.n
            for i, e in enumerate(v):
                self.store(st, self.padd(p, i * ty.eltsize), e, ty.elt)
            return
        if ty.k == "i" and ty.w % 8:
            v = self.zext(v, ty.w, ty.size * 8)
        self.store_cells(st, p, self.split(v, ty.size))

    def padd(self, p, k):
        if k == 0:
            return p
        if isinstance(p, Sel):
            return Sel(p.c, self.padd(p.a, k), self.padd(p.b, k))
        if isinstance(p, Ptr):
            return Ptr(p.obj, p.off + k, p.sym)
        raise Finding("deref", "address arithmetic on %r" % (p,), self.where())

    # ------------------------------------------------------------ value select
    def select(self, c, a, b):
        if type(c) is int:
            return a if c & 1 else b
        if a is b:
            return a
        ta, tb = type(a), type(b)
        if ta is tuple and tb is tuple and len(a) == len(b):
            return tuple(self.select(c, x, y) for x, y in zip(a, b))
        if ta is Sel:
            a = self.restrict(a, c, 1)
            ta = type(a)
        if tb is Sel:
            b = self.restrict(b, c, 0)
            tb = type(b)
        if (ta in (Ptr, FnPtr) or tb in (Ptr, FnPtr)) and a == b:
            return a
        if ta in (Ptr, FnPtr, Sel, _Undef) or tb in (Ptr, FnPtr, Sel, _Undef):
            if ta is _Undef and tb is _Undef:
                return UNDEF
            return Sel(c, a, b)
        if a == b:
            return a
        return self.d.select(c, a, b)

    def sel_cell(self, c, a, b):
        if a is b or a == b:
            return a
        if isinstance(a, Part) and isinstance(b, Part) and a.i == b.i and a.n == b.n:
            v = self.select(c, a.v, b.v)
            return Part(v, a.i, a.n) if not isinstance(v, int) else (v >> (8 * a.i)) & 255
        if a is UNDEF or b is UNDEF:
            return Sel(c, a, b)
        if isinstance(a, (Part, Sel)) and not self.d.owns(a) or isinstance(b, (Part, Sel)) and not self.d.owns(b):
            va = self.join_bytes([a]) if not isinstance(a, Sel) else a
            vb = self.join_bytes([b]) if not isinstance(b, Sel) else b
            v = self.select(c, va, vb)
            return self.split(v, 1)[0]
        return self.select(c, a, b)

    # merge the cells of one object that differ between two states
    def merge_range(self, st, cond, oa, ob, offs):
        """yield off -> cell"""
        res = {}
        done = set()
        for off in offs:
            if off in done:
                continue
            ca = self.load_cell(st, oa, off)
            cb = self.load_cell(st, ob, off)
            n = 1
            base = off
            for c in (ca, cb):
                if isinstance(c, Part) and c.n > n:
                    n = c.n
                    base = off - c.i
            if n > 1:
                ga, gb = oa.cells.get, ob.cells.get
                la = [ga(base + i) or self.load_cell(st, oa, base + i) for i in range(n)]
                lb = [gb(base + i) or self.load_cell(st, ob, base + i) for i in range(n)]
                ok = True
                for c in la:
                    if c is UNDEF:
                        ok = False
                for c in lb:
                    if c is UNDEF:
                        ok = False
                if ok:
                    va, vb = self.join_bytes(la), self.join_bytes(lb)
                    v = self.select(cond, va, vb)
                    cells = self.split(v, n)
                    r = range(base, base + n)
                    res.update(zip(r, cells))
                    done.update(r)
                    continue
            res[off] = self.sel_cell(cond, ca, cb)
            done.add(off)
        return res

    # --------------------------------------------------------------- operands
    def operand(self, st, regs, a):
        if type(a) is int:
            try:
                return regs[a]
            except KeyError:
                raise AnalysisError("use of unset SSA value %d at %s" % (a, self.where()))
        k = a[0]
        if k == "c":
            v = a[1]
            return v if type(v) is int else int(v)
        if k == "g":
            return self.global_ptr(st, a[1], a[2])
        if k == "n":
            return NULL
        if k == "u":
            return self.undef_of(self.m.types[a[1]])
        if k == "z":
            return self.zero_of(self.m.types[a[1]])
        if k == "v":
            return tuple(self.operand(st, regs, x) for x in a[1])
        if k == "ce":
            if a[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.operand(st, regs, a[2][0])
        if k in ("md", "asm", "bb"):
            return None
        raise AnalysisError("operand %r at %s" % (a, self.where()))

    def undef_of(self, ty):
        if ty.k == "v" or ty.k == "a":
            return tuple(self.undef_of(ty.elt) for _ in range(ty.n))
        if ty.k == "s":
            return tuple(self.undef_of(t) for _, t in ty.fields)
        return UNDEF

    def zero_of(self, ty):
        if ty.k == "v" or ty.k == "a":
            return tuple(self.zero_of(ty.elt) for _ in range(ty.n))
        if ty.k == "s":
            return tuple(self.zero_of(t) for _, t in ty.fields)
        if ty.k == "p":
            return NULL
        return 0

    # ----------------------------------------------------------------- scalars
    def defined(self, v, w, what):
        if v is UNDEF:
            self.undef_uses.append((self.where(), what))
            return self.d.undef(w)
        if type(v) is Sel and (v.a is UNDEF or v.b is UNDEF or type(v.a) is Sel or type(v.b) is Sel or
                               not isinstance(v.a, (Ptr, FnPtr)) and not isinstance(v.b, (Ptr, FnPtr))):
            return self.d.select(v.c, self.defined(v.a, w, what), self.defined(v.b, w, what))
        return v

    def binop(self, op, w, a, b):
        if type(a) is int and type(b) is int:
            M = (1 << w) - 1
            if op == "add":
                return (a + b) & M
            if op == "sub":
                return (a - b) & M
            if op == "mul":
                return (a * b) & M
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & M if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                s = a - (1 << w) if a >> (w - 1) else a
                return (s >> min(b, w - 1)) & M
            if op in ("udiv", "urem"):
                if b == 0:
                    raise Finding("div0", "division by zero", self.where())
                return a // b if op == "udiv" else a % b
            if op in ("sdiv", "srem"):
                sa = a - (1 << w) if a >> (w - 1) else a
                sb = b - (1 << w) if b >> (w - 1) else b
                if sb == 0:
                    raise Finding("div0", "division by zero", self.where())
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q if op == "sdiv" else sa - q * sb) & M
            raise AnalysisError("binop " + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Sel) and not self._scalar_sel(a) or \
                isinstance(b, Sel) and not self._scalar_sel(b):
            return self.ptr_binop(op, w, a, b)
        a = self.defined(a, w, op)
        b = self.defined(b, w, op)
        if type(a) is int and type(b) is int:
            return self.binop(op, w, a, b)
        return self.d.binop(op, w, a, b)

    def _scalar_sel(self, s):
        return not (isinstance(s.a, (Ptr, FnPtr)) or isinstance(s.b, (Ptr, FnPtr)) or
                    isinstance(s.a, Sel) and not self._scalar_sel(s.a) or
                    isinstance(s.b, Sel) and not self._scalar_sel(s.b))

    def ptr_binop(self, op, w, a, b):
        if isinstance(a, Sel):
            return self.select(a.c, self.binop(op, w, a.a, b), self.binop(op, w, a.b, b))
        if isinstance(b, Sel):
            return self.select(b.c, self.binop(op, w, a, b.a), self.binop(op, w, a, b.b))
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.sym == b.sym:
            return (a.off - b.off) & ((1 << w) - 1)
        if op == "add" and isinstance(a, Ptr) and type(b) is int:
            return Ptr(a.obj, a.off + (b - (1 << w) if b >> (w - 1) else b), a.sym)
        if op == "sub" and isinstance(a, Ptr) and type(b) is int:
            return Ptr(a.obj, a.off - (b - (1 << w) if b >> (w - 1) else b), a.sym)
        r = self.d.ptr_binop(op, w, a, b)
        if r is None:
            raise AnalysisError("pointer arithmetic %s %r %r at %s" % (op, a, b, self.where()))
        return r

    def trunc(self, v, w0, w):
        if type(v) is int:
            return v & ((1 << w) - 1)
        v = self.defined(v, w0, "trunc")
        return self.d.trunc(v, w0, w) if type(v) is not int else v & ((1 << w) - 1)

    def zext(self, v, w0, w):
        if type(v) is int:
            return v
        v = self.defined(v, w0, "zext")
        return self.d.zext(v, w0, w) if type(v) is not int else v

    def sext(self, v, w0, w):
        if type(v) is int:
            return (v - (1 << w0)) & ((1 << w) - 1) if v >> (w0 - 1) else v
        v = self.defined(v, w0, "sext")
        return self.d.sext(v, w0, w)

    def icmp(self, pred, w, a, b):
        if type(a) is int and type(b) is int:
            if pred == "eq":
                return int(a == b)
            if pred == "ne":
                return int(a != b)
            if pred[0] == "s":
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            o = pred[1:]
            return int(a > b if o == "gt" else a >= b if o == "ge" else a < b if o == "lt" else a <= b)
        pa, pb = isinstance(a, (Ptr, FnPtr)), isinstance(b, (Ptr, FnPtr))
        if isinstance(a, Sel) and not self._scalar_sel(a):
            return self.select(a.c, self.icmp(pred, w, a.a, b), self.icmp(pred, w, a.b, b))
        if isinstance(b, Sel) and not self._scalar_sel(b):
            return self.select(b.c, self.icmp(pred, w, a, b.a), self.icmp(pred, w, a, b.b))
        if pa or pb:
            return self.ptr_icmp(pred, a, b)
        a = self.defined(a, w, "icmp")
        b = self.defined(b, w, "icmp")
        if type(a) is int and type(b) is int:
            return self.icmp(pred, w, a, b)
        return self.d.icmp(pred, w, a, b)

    def ptr_icmp(self, pred, a, b):
        if type(a) is int:
            a = Ptr(None, a)
        if type(b) is int:
            b = Ptr(None, b)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = a == b
            if pred in ("eq", "ne"):
                return int(e == (pred == "eq"))
        elif a.obj == b.obj and not a.sym and not b.sym:
            x, y = a.off, b.off
            o = pred if pred in ("eq", "ne") else pred[1:]
            return int({"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[o])
        elif a.obj != b.obj and pred in ("eq", "ne"):
            return int(pred == "ne")
        r = self.d.ptr_icmp(pred, a, b)
        if r is None:
            raise AnalysisError("pointer comparison %s %r %r at %s" % (pred, a, b, self.where()))
        return r

    def lanes(self, f, *args):
        if isinstance(args[0], tuple):
            return tuple(f(*x) for x in zip(*args))
        return f(*args)

    def bitcast(self, v, t0, t1):
        if t0.k in ("p",) and t1.k in ("p",) or t0 is t1:
            return v
        cells = []
        if t0.k == "v":
            if v is UNDEF:
                return self.undef_of(t1)
            if t0.elt.w == 1:
                raise AnalysisError("i1 vector bitcast at %s" % self.where())
            for e in v:
                cells += self.split(e, t0.elt.size)
        else:
            cells = self.split(v, t0.size)
        if t1.k == "v":
            es = t1.elt.size
            return tuple(self.join_bytes(cells[i * es:(i + 1) * es]) for i in range(t1.n))
        return self.join_bytes(cells)

    # ------------------------------------------------------------ conditions
    def cond_literal(self, c):
        """(key, polarity, value-of-key)"""
        k, pol = self.d.cond_key(c)
        if k not in self.condvals:
            self.condvals[k] = c if pol else self.d.cond_not(c)
        return k, pol

    def decided(self, st, key):
        """True/False when every trace of st fixes key the same way"""
        r = None
        for t in st.paths:
            f = None
            for k, p in t:
                if k == key:
                    f = p
                    break
            if f is None:
                return None
            if r is None:
                r = f
            elif r != f:
                return None
        return r

    @staticmethod
    def norm_paths(paths):
        paths = set(paths)
        changed = True
        while changed:
            changed = False
            for t in sorted(paths, key=len, reverse=True):
                if t and t in paths:
                    u = t[:-1] + ((t[-1][0], not t[-1][1]),)
                    if u in paths:
                        paths.discard(t)
                        paths.discard(u)
                        paths.add(t[:-1])
                        changed = True
        return frozenset(paths)

    def merge_tree(self, items):
        """items: list of (trace, k) -> nested ('n', key, T, F) | k"""
        def build(its, depth):
            ks = {k for _, k in its}
            if len(ks) == 1:
                return its[0][1]
            key = None
            T, F = [], []
            for t, k in its:
                if len(t) <= depth:
                    raise AnalysisError("path structure")
                kk, pol = t[depth]
                if key is None:
                    key = kk
                elif key != kk:
                    raise AnalysisError("path structure: different conditions at one decision")
                (T if pol else F).append((t, k))
            if not T:
                return build(F, depth + 1)
            if not F:
                return build(T, depth + 1)
            a, b = build(T, depth + 1), build(F, depth + 1)
            if a == b:
                return a
            return ("n", key, a, b)
        return build(items, 0)

    def tree_eval(self, tree, f):
        if not isinstance(tree, tuple):
            return f(tree)
        return self.select(self.condvals[tree[1]], self.tree_eval(tree[2], f), self.tree_eval(tree[3], f))

    def merge_states(self, states):
        """states: list of State -> (merged State, tree)"""
        if len(states) == 1:
            return states[0], 0
        self.stats["merges"] += 1
        items = []
        for k, s in enumerate(states):
            for t in s.paths:
                items.append((t, k))
        tree = self.merge_tree(items)

        def rec(tr):
            if not isinstance(tr, tuple):
                return states[tr]
            a, b = rec(tr[2]), rec(tr[3])
            return self.merge2(self.condvals[tr[1]], a, b)
        r = rec(tree)
        ns = State()
        ns.mem = dict(r.mem)
        ns.ext = r.ext
        ns.paths = self.norm_paths([t for s in states for t in s.paths])
        return ns, tree

    def merge2(self, cond, a, b):
        ns = State()
        for key in a.mem.keys() | b.mem.keys():
            oa, ob = a.mem.get(key), b.mem.get(key)
            if oa is ob or ob is None:
                ns.mem[key] = oa
                continue
            if oa is None:
                ns.mem[key] = ob
                continue
            ca, cb = oa.cells, ob.cells
            gb = cb.get
            diff = []
            for o, x in ca.items():
                y = gb(o, ca)
                if x is y or y is not ca and x == y:
                    continue
                diff.append(o)
            if len(ca) != len(cb) or diff:
                diff += [o for o in cb if o not in ca]
            if not diff:
                ns.mem[key] = oa
                continue
            o = oa.clone(ns.uid)
            o.cells.update(self.merge_range(ns, cond, oa, ob, sorted(diff)))
            ns.mem[key] = o
        ns.ext = self.d.merge_ext(cond, a.ext, b.ext)
        return ns

    # -------------------------------------------------------------- execution
    def call(self, st, fname, args):
        """Analyse a call; returns list of outcomes [(kind, state, value)], kind in ret|throw.
        At most one 'ret'."""
        f = fname if isinstance(fname, Func) else self.m.funcs[fname]
        return self.exec_function(st, f, args)

    def call1(self, st, f, args):
        """call that must return normally on the analysed state; returns (state, value)"""
        out = self.call(st, f, args)
        rets = [o for o in out if o[0] == "ret"]
        thr = [o for o in out if o[0] != "ret"]
        if thr or not rets:
            raise Finding("throw", "%s does not return normally: %s" % (f, [o[2] for o in thr]))
        return rets[0][1], rets[0][2]

    def exec_function(self, st, f, args):
        if f.decl:
            raise AnalysisError("call to undefined function %s at %s" % (f.dem, self.where()))
        if len(self.callstack) > 200:
            raise Finding("recursion", "unbounded recursion through %s" % f.dem, self.where())
        blocks = f.blocks
        self.stats["functions"].add(f.name)
        self.stats["calls"] += 1
        base_paths = st.paths
        # path traces are relative to the function entry
        entry = st
        entry_paths = st.paths
        regs = {}
        for i, v in enumerate(args):
            regs[i] = v
        self.callstack.append((f, self.cur))
        pending = {}   # key -> list of (prev, regs, state, iters)
        outs_ret = []
        outs_throw = []
        rpo = f.rpo
        chain = f.chain

        def prio(b, iters):
            k = []
            for h, it in zip(chain[b], iters):
                k.append(rpo[h])
                k.append(it)
            k.append(rpo[b])
            return tuple(k)

        def push(prev, b, regs, st, iters):
            # iteration counters
            ch = chain[b]
            if prev is None:
                ni = (0,) * len(ch)
            else:
                pc = chain[prev]
                ni = []
                for d, h in enumerate(ch):
                    if d < len(pc) and pc[d] == h:
                        it = iters[d]
                        if h == b and d == len(ch) - 1:
                            it += 1
                            if it > self.max_iter:
                                raise Finding("unbounded", "loop at %s exceeds %d iterations" % (self.where(), self.max_iter), self.where())
                        ni.append(it)
                    else:
                        ni.append(0)
                ni = tuple(ni)
            key = prio(b, ni)
            pending.setdefault(key, []).append((prev, b, regs, st, ni))

        push(None, 0, regs, st, ())
        try:
            while pending:
                key = min(pending)
                group = pending.pop(key)
                b = group[0][1]
                if Engine.partition and len(group) > 1:
                    group = self.part(f, group, key, pending)
                ins_list = blocks[b]
                self.stats["blocks"] += 1
                # phi evaluation per predecessor
                nphi = 0
                while nphi < len(ins_list) and ins_list[nphi].op == "phi":
                    nphi += 1
                prepared = []
                for prev, _, regs, st, ni in group:
                    if nphi:
                        vals = []
                        for k in range(nphi):
                            i = ins_list[k]
                            self.cur = (f, i)
                            for op, pb in i.a:
                                if pb == prev:
                                    vals.append((i.id, self.operand(st, regs, op)))
                                    break
                            else:
                                raise AnalysisError("phi")
                        regs = dict(regs)
                        for r, v in vals:
                            regs[r] = v
                    prepared.append((regs, st))
                ni = group[0][4]
                if len(prepared) > 1:
                    st, tree = self.merge_states([s for _, s in prepared])
                    rl = [r for r, _ in prepared]
                    common = set(rl[0])
                    for r in rl[1:]:
                        common &= set(r)
                    regs = {}
                    for k in common:
                        v0 = rl[0][k]
                        if all(r[k] is v0 for r in rl):
                            regs[k] = v0
                        elif f.dom[b] >> f.defblk.get(k, b) & 1:
                            # (a register whose definition does not dominate this block is dead here)
                            regs[k] = self.tree_eval(tree, lambda j: rl[j][k])
                else:
                    regs, st = prepared[0]
                    if len(group) == 1 and nphi == 0 and len(f.preds[b]) > 1:
                        regs = dict(regs)
                # straight-line part
                for i in ins_list[nphi:]:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise AnalysisError("step budget exceeded in " + f.dem)
                    self.cur = (f, i)
                    op = i.op
                    if op == "br":
                        s = i.x["s"]
                        if len(s) == 1:
                            push(b, s[0], regs, st, ni)
                        else:
                            c = self.operand(st, regs, i.a[0])
                            self.branch(f, st, regs, c, s[0], s[1], b, ni, push)
                        break
                    if op == "switch":
                        self.do_switch(f, st, regs, i, b, ni, push)
                        break
                    if op == "ret":
                        v = self.operand(st, regs, i.a[0]) if i.a else None
                        outs_ret.append((st, v))
                        break
                    if op == "unreachable":
                        break
                    if op == "resume":
                        outs_throw.append((st, Thrown("resume")))
                        break
                    if op == "call" or op == "invoke":
                        outs = self.do_call(st, regs, i, f)
                        ret = None
                        for kind, s2, v in outs:
                            if kind == "ret":
                                if ret is not None:
                                    raise AnalysisError("multiple returns")
                                ret = (s2, v)
                            else:
                                self.cur = (f, i)
                                if op == "invoke":
                                    r2 = dict(regs)
                                    push(b, i.x["s"][1], r2, s2, ni)
                                    # remember what is in flight
                                    s2.ext = dict(s2.ext)
                                    s2.ext["inflight"] = v
                                else:
                                    outs_throw.append((s2, v))
                        if ret is None:
                            break
                        st, v = ret
                        if i.id >= 0:
                            regs[i.id] = v
                        if op == "invoke":
                            self.cur = (f, i)
                            push(b, i.x["s"][0], regs, st, ni)
                            break
                        continue
                    self.exec_instr(st, regs, i, f)
                # end block
        finally:
            self.callstack.pop()
        res = []
        if outs_ret:
            st2, tree = self.merge_states([s for s, _ in outs_ret])
            vs = [v for _, v in outs_ret]
            if vs[0] is None:
                v = None
            elif len(vs) == 1:
                v = vs[0]
            else:
                v = self.tree_eval(tree, lambda j: vs[j])
            res.append(("ret", st2, v))
        if outs_throw:
            st3, tree = self.merge_states([s for s, _ in outs_throw])
            res.append(("throw", st3, outs_throw[0][1]))
        return res

    # second attempt at an obligation: states that differ in a number the code may use as an index stay apart
    partition = False
    parts = 0

    def part(self, f, group, key, pending):
        b = group[0][1]
        live = [r for r in group[0][2] if f.dom[b] >> f.defblk.get(r, b) & 1 and all(r in g[2] for g in group)]
        classes = {}
        for g in group:
            k = []
            for i in f.blocks[b]:
                if i.op != "phi":
                    break
                for op, pb in i.a:
                    if pb == g[0]:
                        v = self.operand(g[3], g[2], op)
                        k.append(v if type(v) is int else None)
            k += [v if type(v) is int else None for v in (g[2][r] for r in live)]
            classes.setdefault(tuple(k), []).append(g)
        if len(classes) > 64:
            return group
        cl = list(classes.values())
        for g in cl[1:]:
            self.parts += 1
            pending[key + (self.parts,)] = g
        return cl[0]

    def branch(self, f, st, regs, c, tb, fb, b, ni, push):
        if c is UNDEF:
            raise Finding("undef", "branch on an uninitialised value", self.where())
        if type(c) is Sel:
            c = self.defined(c, 1, "branch")
        if type(c) is int:
            push(b, tb if c & 1 else fb, regs, st, ni)
            return
        if tb == fb:
            push(b, tb, regs, st, ni)
            return
        c = self.d.cond_refine(st, c)
        if type(c) is int:
            push(b, tb if c & 1 else fb, regs, st, ni)
            return
        s1, s2 = self.split_cond(st, c)
        if s1 is not None:
            push(b, tb, dict(regs), s1, ni)
        if s2 is not None:
            push(b, fb, dict(regs), s2, ni)

    def split_cond(self, st, c):
        """(state where c holds, state where it does not); traces that decide c keep their literals"""
        und = self.d.cond_under(c, st.paths)
        if und is None:
            key, pol = self.cond_literal(c)
            dec = self.decided(st, key)
            if dec is not None:
                return (st, None) if dec == pol else (None, st)
            s1, s2 = self.split_state(st, key)
            return (s1, s2) if pol else (s2, s1)
        T = frozenset(t for t, v in und.items() if v == 1)
        F = frozenset(t for t, v in und.items() if v == 0)
        U = frozenset(t for t, v in und.items() if v is None)
        tree = self.d.cond_paths(c) if U else None
        if tree is not None:
            for t in U:
                fx = dict(t)
                for path, val in tree:
                    if any(fx.get(k, pol) != pol for k, pol in path):
                        continue
                    u = t + tuple((k, pol) for k, pol in path if k not in fx)
                    if val:
                        T |= {u}
                    else:
                        F |= {u}
                for path, _ in tree:
                    for k, _ in path:
                        if k not in self.condvals:
                            self.condvals[k] = self.d.cond_value(k)
        elif U:
            key, pol = self.cond_literal(c)
            T |= frozenset(t + ((key, pol),) for t in U if (key, not pol) not in t)
            F |= frozenset(t + ((key, not pol),) for t in U if (key, pol) not in t)
        out = []
        for ps in (T, F):
            if not ps:
                out.append(None)
                continue
            s = st.fork() if T and F else st
            s.paths = ps
            out.append(s)
        return out

    def restrict(self, v, c, val):
        """v on the side where condition c has value val"""
        if type(v) is Sel:
            if v.c == c:
                return self.restrict(v.a if val else v.b, c, val)
            a, b = self.restrict(v.a, c, val), self.restrict(v.b, c, val)
            if a is v.a and b is v.b:
                return v
            return self.select(v.c, a, b)
        return v

    def split_state(self, st, key):
        s1, s2 = st.fork(), st.fork()
        # forks must copy-on-write
        s1.paths = frozenset(t if (key, True) in t else t + ((key, True),) for t in st.paths if (key, False) not in t)
        s2.paths = frozenset(t if (key, False) in t else t + ((key, False),) for t in st.paths if (key, True) not in t)
        # drop a duplicated literal
        s1 = self.d.assume(s1, key, True) if s1.paths else None
        s2 = self.d.assume(s2, key, False) if s2.paths else None
        return s1, s2

    def do_switch(self, f, st, regs, i, b, ni, push):
        v = self.operand(st, regs, i.a[0])
        s = i.x["s"]
        w = self.m.types[i.x["ot"]].w if "ot" in i.x else 64
        if v is UNDEF:
            raise Finding("undef", "switch on an uninitialised value", self.where())
        if type(v) is int:
            for cv, t in s[1:]:
                if int(cv) == v:
                    push(b, t, regs, st, ni)
                    return
            push(b, s[0], regs, st, ni)
            return
        cur = st
        for cv, t in s[1:]:
            c = self.icmp("eq", w, v, int(cv))
            if type(c) is int:
                if c:
                    push(b, t, dict(regs), cur, ni)
                    return
                continue
            c = self.d.cond_refine(cur, c)
            if type(c) is int:
                if c:
                    push(b, t, dict(regs), cur, ni)
                    return
                continue
            s1, s2 = self.split_cond(cur, c)
            if s1 is not None:
                push(b, t, dict(regs), s1, ni)
            cur = s2
            if cur is None:
                return
        push(b, s[0], dict(regs), cur, ni)

    # ------------------------------------------------------------ instructions
    def exec_instr(self, st, regs, i, f):
        op = i.op
        o = self.operand
        if op == "load":
            regs[i.id] = self.load(st, o(st, regs, i.a[0]), i.ty)
        elif op == "store":
            self.store(st, o(st, regs, i.a[1]), o(st, regs, i.a[0]), self.m.types[i.x["st"]])
        elif op == "getelementptr":
            regs[i.id] = self.gep(st, regs, i)
        elif op in BINOPS:
            a, b = o(st, regs, i.a[0]), o(st, regs, i.a[1])
            if i.ty.k == "v":
                w = i.ty.elt.w
                regs[i.id] = tuple(self.binop(op, w, x, y) for x, y in zip(a, b))
            else:
                regs[i.id] = self.binop(op, i.ty.w, a, b)
        elif op == "icmp":
            a, b = o(st, regs, i.a[0]), o(st, regs, i.a[1])
            t = self.m.types[i.x["ot"]]
            p = i.x["p"]
            if t.k == "v":
                regs[i.id] = tuple(self.icmp(p, t.elt.w, x, y) for x, y in zip(a, b))
            else:
                regs[i.id] = self.icmp(p, t.w or 64, a, b)
        elif op in ("zext", "sext", "trunc"):
            t = self.m.types[i.x["ot"]]
            v = o(st, regs, i.a[0])
            fn = getattr(self, op)
            if t.k == "v":
                regs[i.id] = tuple(fn(x, t.elt.w, i.ty.elt.w) for x in v)
            else:
                regs[i.id] = fn(v, t.w, i.ty.w)
        elif op == "select":
            c, a, b = [o(st, regs, x) for x in i.a]
            if isinstance(c, tuple):
                regs[i.id] = tuple(self.select(x, y, z) for x, y, z in zip(c, a, b))
            else:
                if type(c) is Sel or c is UNDEF:
                    c = self.defined(c, 1, "select")
                if type(c) is not int:
                    c = self.d.cond_refine(st, c)
                if type(c) is not int:
                    key, pol = self.cond_literal(c)
                    dec = self.decided(st, key)
                    if dec is not None:
                        c = int(dec == pol)
                regs[i.id] = self.select(c, a, b)
        elif op == "alloca":
            n = o(st, regs, i.a[0])
            if type(n) is not int:
                raise AnalysisError("variable alloca")
            regs[i.id] = Ptr(self.new_obj(st, i.x.get("name") or "tmp", i.x["sz"] * n, "stack"), 0)
        elif op == "bitcast":
            regs[i.id] = self.bitcast(o(st, regs, i.a[0]), self.m.types[i.x["ot"]], i.ty)
        elif op in ("ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            v = o(st, regs, i.a[0])
            if op == "inttoptr" and type(v) is int:
                v = Ptr(None, v)
            if op == "ptrtoint" and isinstance(v, Ptr) and v.obj is None and not v.sym:
                v = v.off
            regs[i.id] = v
        elif op == "extractelement":
            v, k = o(st, regs, i.a[0]), o(st, regs, i.a[1])
            regs[i.id] = v[k] if v is not UNDEF else UNDEF
        elif op == "insertelement":
            v, e, k = [o(st, regs, x) for x in i.a]
            v = list(v) if v is not UNDEF else [UNDEF] * i.ty.n
            v[k] = e
            regs[i.id] = tuple(v)
        elif op == "shufflevector":
            a, b = o(st, regs, i.a[0]), o(st, regs, i.a[1])
            n = i.x["n"]
            ab = list(a if a is not UNDEF else [UNDEF] * n) + list(b if b is not UNDEF else [UNDEF] * n)
            regs[i.id] = tuple(UNDEF if k < 0 else ab[k] for k in i.x["m"])
        elif op == "extractvalue":
            v = o(st, regs, i.a[0])
            for k in i.x["m"]:
                v = v[k] if v is not UNDEF else UNDEF
            regs[i.id] = v
        elif op == "insertvalue":
            v, e = o(st, regs, i.a[0]), o(st, regs, i.a[1])

            def ins(v, path, e, ty):
                if not path:
                    return e
                v = list(v)
                v[path[0]] = ins(v[path[0]], path[1:], e, None)
                return tuple(v)
            if v is UNDEF:
                v = self.undef_of(i.ty)
            regs[i.id] = ins(v, i.x["m"], e, i.ty)
        elif op == "landingpad":
            regs[i.id] = (Ptr(None, 0x1000), 0)
        elif op == "fence":
            pass
        else:
            r = self.d.other_instr(self, st, regs, i, f)
            if r is NotImplemented:
                raise AnalysisError("instruction %s at %s" % (op, self.where()))

    def gep(self, st, regs, i):
        p = self.operand(st, regs, i.a[0])
        off = i.x["co"]
        sym = []
        for idx, sc, t in i.x["var"]:
            v = self.operand(st, regs, idx)
            ty = self.m.types[t]
            w = ty.w
            if type(v) is int:
                if v >> (w - 1):
                    v -= 1 << w
                off += v * sc
            else:
                v = self.defined(v, w, "index")
                r = self.d.gep_index(v, w, sc)
                if isinstance(r, int):
                    off += r
                else:
                    sym.append(r)
        return self.gep_apply(p, off, tuple(sym))

    def gep_apply(self, p, off, sym):
        if isinstance(p, Sel):
            return Sel(p.c, self.gep_apply(p.a, off, sym), self.gep_apply(p.b, off, sym))
        if not isinstance(p, Ptr):
            if type(p) is int:
                p = Ptr(None, p)
            else:
                raise Finding("deref", "address arithmetic on %r" % (p,), self.where())
        if sym or p.sym:
            return self.d.ptr_sym(p, off, sym)
        return Ptr(p.obj, p.off + off)

    # ------------------------------------------------------------------- calls
    def do_call(self, st, regs, i, f):
        fo = i.x["f"]
        if fo[0] == "asm" if isinstance(fo, list) else False:
            r = self.d.inline_asm(self, st, regs, i, f)
            if r is NotImplemented:
                raise AnalysisError("inline asm at %s" % self.where())
            return [("ret", st, r)]
        fv = self.operand(st, regs, fo)
        args = [self.operand(st, regs, a) for a in i.a]
        return self.apply(st, fv, args, i)

    def apply(self, st, fv, args, i):
        if isinstance(fv, Sel):
            raise AnalysisError("gated callee at %s" % self.where())
        if not isinstance(fv, FnPtr):
            raise Finding("deref", "call through non-function %r" % (fv,), self.where())
        g = self.m.funcs[fv.name]
        if g.name.startswith("llvm."):
            v = self.intrinsic(st, g.name, args, i)
            return [("ret", st, v)]
        if i is not None and "bv" in i.x:
            args = list(args)
            for k, sz in i.x["bv"]:
                key = self.new_obj(st, "byval", sz, "stack")
                self.store_cells(st, Ptr(key, 0), self.load_bytes(st, args[k], sz))
                args[k] = Ptr(key, 0)
        h = self.find_hook(g)
        if h is not None:
            saved = self.cur
            r = h(self, st, g, args)
            self.cur = saved
            if r is not NotImplemented:
                if isinstance(r, list):
                    return r
                return [("ret", st, r)]
        if g.decl:
            r = self.external(st, g, args, i)
            if r is not NotImplemented:
                if isinstance(r, list):
                    return r
                return [("ret", st, r)]
            raise AnalysisError("call to unmodelled external %s at %s" % (g.dem, self.where()))
        saved = self.cur
        out = self.exec_function(st, g, args)
        self.cur = saved
        return out

    def external(self, st, g, args, i):
        n = g.name
        if n in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2])
            return args[0]
        if n == "memset":
            self.memset(st, args[0], args[1], args[2])
            return args[0]
        if n in ("memcmp", "bcmp"):
            return self.memcmp(st, args[0], args[1], args[2])
        if n == "_Znwm" or n == "malloc":
            if type(args[0]) is not int:
                raise AnalysisError("symbolic allocation at " + self.where())
            return Ptr(self.new_obj(st, "new", args[0], "heap"), 0)
        if n in ("_ZdlPv", "_ZdlPvm", "free"):
            return None
        if n == "__cxa_allocate_exception":
            return Ptr(self.new_obj(st, "exc", max(args[0], 64), "heap"), 0)
        if n == "__cxa_free_exception":
            return None
        if n in ("__cxa_throw", "__cxa_rethrow"):
            what = "?"
            if n == "__cxa_throw" and isinstance(args[1], Ptr) and args[1].obj:
                what = args[1].obj.lstrip("@")
            return [("throw", st, Thrown(what))]
        if n == "__cxa_begin_catch":
            return Ptr(None, 0x1000)
        if n == "__cxa_end_catch":
            return None
        if n == "_ZSt9terminatev":
            raise Finding("terminate", "std::terminate reached", self.where())
        if re.match(r"_ZNSt\d+(runtime_error|invalid_argument|logic_error|out_of_range|length_error|domain_error|range_error|overflow_error|bad_alloc|exception)[CD]\d", n):
            return None
        if re.search(r"St\d*(runtime_error|invalid_argument|logic_error|out_of_range|length_error|exception|bad_alloc)", n) and ("C1" in n or "C2" in n or "D1" in n or "D2" in n or "D0" in n):
            return None
        return self.d.external(self, st, g, args, i)

    def memcmp(self, st, a, b, n):
        return self.d.memcmp(self, st, a, b, n)

    def memcpy(self, st, d, s, n):
        if type(n) is not int:
            return self.d.sym_memcpy(self, st, d, s, n)
        if n == 0:
            return
        if isinstance(s, Sel):
            cells = None
            ca = self._sel_bytes(st, s, n)
            self.store_cells(st, d, ca)
            return
        self.store_cells(st, d, self.load_range(st, s, n))

    def load_range(self, st, s, n):
        if isinstance(s, Sel):
            return self._sel_bytes(st, s, n)
        if not isinstance(s, Ptr) or s.obj is None:
            raise Finding("deref", "read through %r" % (s,), self.where())
        if s.sym:
            cells = []
            for k in range(n):
                cells += self.split(self.sym_load(st, self.padd(s, k), 1), 1)
            return cells
        return self.load_bytes(st, s, n)

    def _sel_bytes(self, st, s, n):
        a, b = self.load_range(st, s.a, n), self.load_range(st, s.b, n)
        out = [None] * n
        k = 0
        while k < n:
            w = 1
            for c in (a[k], b[k]):
                if isinstance(c, Part) and c.i == 0 and k + c.n <= n:
                    w = max(w, c.n)
            if w > 1 and UNDEF not in a[k:k + w] and UNDEF not in b[k:k + w]:
                v = self.select(s.c, self.join_bytes(a[k:k + w]), self.join_bytes(b[k:k + w]))
                out[k:k + w] = self.split(v, w)
            else:
                w = 1
                out[k] = self.sel_cell(s.c, a[k], b[k])
            k += w
        return out

    def memset(self, st, d, v, n):
        if type(n) is not int:
            return self.d.sym_memset(self, st, d, v, n)
        if n == 0:
            return
        c = self.split(v, 1)[0]
        self.store_cells(st, d, [c] * n)

    def intrinsic(self, st, name, args, i):
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant",
                            "llvm.prefetch", "llvm.donothing")):
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, args[0], args[1], args[2])
            return None
        if name.startswith("llvm.memset"):
            self.memset(st, args[0], args[1], args[2])
            return None
        if name == "llvm.trap":
            return None
        if name.startswith("llvm.expect"):
            return args[0]
        if name.startswith("llvm.eh.typeid"):
            return 1
        if name.startswith("llvm.objectsize"):
            return (1 << 64) - 1
        if name.startswith("llvm.bswap") and (type(args[0]) is int or not getattr(self.d, "own_bswap", False)):
            w = i.ty.w
            c = self.split(args[0], w // 8)
            return self.join_bytes(c[::-1])
        m = re.match(r"llvm\.(umul|uadd|usub|smul|sadd|ssub)\.with\.overflow\.i(\d+)", name)
        if m and all(type(a) is int for a in args):
            w = int(m.group(2))
            a, b = args
            r = {"mul": a * b, "add": a + b, "sub": a - b}[m.group(1)[1:]]
            if m.group(1)[0] == "u":
                return (r & ((1 << w) - 1), int(r < 0 or r >> w != 0))
        m = re.match(r"llvm\.(umin|umax|smin|smax)\.i(\d+)", name)
        if m:
            w = int(m.group(2))
            p = m.group(1)[0] + ("lt" if m.group(1)[1:] == "min" else "gt")
            return self.select(self.icmp(p, w, args[0], args[1]), args[0], args[1])
        m = re.match(r"llvm\.fsh([lr])\.(v\d+)?i(\d+)", name)
        if m:
            w = int(m.group(3))

            def fsh(a, b, c):
                c = c % w
                if c == 0:
                    return a if m.group(1) == "l" else b
                if m.group(1) == "r":
                    c = w - c
                return self.binop("or", w, self.binop("shl", w, a, c), self.binop("lshr", w, b, w - c))
            return self.lanes(fsh, *args)
        r = self.d.intrinsic(self, st, name, args, i)
        if r is NotImplemented:
            raise AnalysisError("intrinsic %s at %s" % (name, self.where()))
        return r


BINOPS = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"}


class Domain:
    """Defaults; a concrete domain overrides what it models."""
    eng = None
    whole_bytes = True      # a one-byte opaque value may be used as such

    def fail(self, what):
        raise AnalysisError("%s not modelled in this domain at %s" % (what, self.eng.where()))

    def owns(self, c):
        return False

    def undef(self, w):
        self.fail("undef")

    def binop(self, op, w, a, b):
        self.fail(op)

    def ptr_binop(self, op, w, a, b):
        return None

    def ptr_icmp(self, pred, a, b):
        return None

    def trunc(self, v, w0, w):
        self.fail("trunc")

    def zext(self, v, w0, w):
        self.fail("zext")

    def sext(self, v, w0, w):
        self.fail("sext")

    def icmp(self, p, w, a, b):
        self.fail("icmp")

    def select(self, c, a, b):
        self.fail("select")

    def join(self, cells):
        self.fail("join of bytes %r" % (cells,))

    def split(self, v, n):
        return [Part(v, i, n) for i in range(n)]

    def sym_load(self, st, p, n):
        self.fail("symbolic load")

    def sym_store(self, st, p, cells):
        self.fail("symbolic store")

    def sym_memcpy(self, eng, st, d, s, n):
        self.fail("symbolic memcpy")

    def sym_memset(self, eng, st, d, v, n):
        self.fail("symbolic memset")

    def gep_index(self, v, w, sc):
        return (v, w, sc)

    def ptr_sym(self, p, off, sym):
        return Ptr(p.obj, p.off + off, p.sym + sym)

    def cond_paths(self, c):
        """None, or the decision paths of c: [(literals, 0|1)], prefix free and complete"""
        return None

    def cond_under(self, c, paths):
        """None, or {trace: 0|1|None}: the value of c along each trace"""
        return None

    def cond_key(self, c):
        self.fail("branch on abstract value %r" % (c,))

    def cond_not(self, c):
        self.fail("not")

    def cond_refine(self, st, c):
        return c

    def assume(self, st, key, val):
        return st

    def merge_ext(self, c, a, b):
        return {k: v for k, v in a.items() if k in b and b[k] == v}

    def other_instr(self, eng, st, regs, i, f):
        return NotImplemented

    def inline_asm(self, eng, st, regs, i, f):
        return NotImplemented

    def external(self, eng, st, g, args, i):
        return NotImplemented

    def memcmp(self, eng, st, a, b, n):
        return NotImplemented

    def intrinsic(self, eng, st, name, args, i):
        return NotImplemented
