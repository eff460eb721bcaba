"""Lengths and counts are never cut: in the functions of a component, no value computed from a 64-bit integer
parameter (all of them are lengths or counts in this library) is reduced to fewer bits and then used as a number,
unless it provably fits."""
from .core import Result

ARITH = ("add", "sub", "mul", "udiv", "sdiv", "shl", "lshr", "ashr", "or", "phi", "select", "freeze", "and", "urem", "zext", "sext", "trunc")


def ops(i):
    """value operands (an incoming value of a phi comes with its block)"""
    return [a[0] for a in i.a] if i.op == "phi" else i.a


def const(a):
    return int(a[1]) if type(a) is not int and a[0] == "c" else None


class Cut:
    def __init__(self, f):
        self.f = f
        self.defs = {}
        self.uses = {}
        for b in f.blocks:
            for i in b:
                if i.id >= 0:
                    self.defs[i.id] = i
                for a in ops(i):
                    if type(a) is int:
                        self.uses.setdefault(a, []).append(i)
        self.tainted = {k for k, a in enumerate(f.args) if f.mod.types[a["t"]].k == "i" and f.mod.types[a["t"]].w == 64}
        ch = True
        while ch:
            ch = False
            for i in self.defs.values():
                if i.id not in self.tainted and i.op in ARITH and any(type(a) is int and a in self.tainted for a in ops(i)):
                    self.tainted.add(i.id)
                    ch = True

    def bound(self, v, w, d=0):
        """upper bound of an unsigned value"""
        top = (1 << w) - 1
        c = const(v)
        if c is not None:
            return c & top
        i = self.defs.get(v) if type(v) is int else None
        if i is None or d > 12:
            return top
        r = lambda k: self.bound(i.a[k], w, d + 1)
        if i.op == "and":
            return min(r(0), r(1))
        if i.op == "urem" and const(i.a[1]):
            return min(r(0), const(i.a[1]) - 1)
        if i.op == "lshr" and const(i.a[1]) is not None:
            return r(0) >> const(i.a[1])
        if i.op == "udiv" and const(i.a[1]):
            return r(0) // const(i.a[1])
        if i.op == "zext":
            s = i.a[0]
            sw = self.width(s)
            return self.bound(s, sw, d + 1) if sw else top
        if i.op in ("phi", "select"):
            xs = [self.bound(a, w, d + 4) for a in (ops(i) if i.op == "phi" else i.a[1:])]
            return max(xs)
        if i.op == "add":
            s = r(0) + r(1)
            return s if s <= top else top
        if i.op == "mul":
            s = r(0) * r(1)
            return s if s <= top else top
        if i.op == "sub" and const(i.a[0]) is not None and r(1) <= const(i.a[0]):
            return const(i.a[0])
        return top

    def width(self, a):
        if type(a) is not int:
            return int(a[2]) if a[0] == "c" and len(a) > 2 else None
        if a < len(self.f.args):
            t = self.f.mod.types[self.f.args[a]["t"]]
        elif a in self.defs:
            t = self.defs[a].ty
        else:
            return None
        return t.w if t.k == "i" else None

    def as_number(self, v, seen=None, d=0):
        """an instruction that uses v (or something computed from it) as a number"""
        seen = set() if seen is None else seen
        for u in self.uses.get(v, ()):
            if u.id in seen and u.id >= 0:
                continue
            seen.add(u.id)
            if u.op in ("zext", "sext") and (u.ty.w or 0) >= 32:
                return u
            if u.op in ("add", "sub", "mul", "icmp", "switch", "getelementptr", "udiv", "urem"):
                return u
            if u.op in ("call", "invoke"):
                continue
            if u.op in ("phi", "select", "freeze", "or", "shl"):
                r = self.as_number(u.id, seen, d + 1)
                if r:
                    return r
        return None

    def cuts(self):
        for i in self.defs.values():
            if i.op == "trunc" and type(i.a[0]) is int and i.a[0] in self.tainted and (i.ty.w or 0) >= 8:
                if self.bound(i.a[0], self.width(i.a[0]) or 64) >> i.ty.w:
                    u = self.as_number(i.id)
                    if u:
                        yield i, u
            elif i.op == "and" and i.ty.k == "i" and i.ty.w == 64 and type(i.a[0]) is int and i.a[0] in self.tainted and const(i.a[1]) in (0xFFFF, 0xFFFFFFFF, 0x7FFFFFFF):
                if self.bound(i.a[0], 64) > const(i.a[1]):
                    yield i, i


    def narrow_counters(self):
        """a counter of fewer than 32 bits that steps once per round of a loop whose number of rounds depends on a length"""
        f = self.f
        for l in f.d["loops"]:
            body = set(l["b"])
            conds = []
            for b in body:
                t = f.blocks[b][-1]
                s = t.x.get("s") or []
                if t.op == "br" and len(s) == 2 and (s[0] not in body or s[1] not in body):
                    c = self.defs.get(t.a[0]) if type(t.a[0]) is int else None
                    if c is not None and c.op == "icmp" and any(type(a) is int and a in self.tainted for a in c.a):
                        conds.append(c)
            if not conds:
                continue
            for p in f.blocks[l["h"]]:
                if p.op != "phi":
                    break
                if p.ty.k != "i" or p.ty.w == 1:
                    continue
                if not any(pb in body and self.steps(v, p.id) for v, pb in p.a):
                    continue
                fits = lambda w: any(max(self.bound(a, 64) for a in c.a) < 1 << w for c in conds)
                if p.ty.w < 32:
                    if self.as_number(p.id) and not fits(p.ty.w):
                        yield p, p
                    continue
                for u in self.uses.get(p.id, ()):
                    w = u.ty.w if u.op == "trunc" else (const(u.a[1]) or 0).bit_length() if u.op == "and" and const(u.a[1]) is not None \
                        and const(u.a[1]) & const(u.a[1]) + 1 == 0 else 64
                    if 8 < w < 32 and not fits(w) and (self.as_number(u.id) or any(x.op in ("call", "invoke") for x in self.uses.get(u.id, ()))):
                        yield u, u

    def steps(self, v, phi, d=0):
        """v is phi plus constants"""
        if v == phi:
            return d > 0
        i = self.defs.get(v) if type(v) is int else None
        if i is None or d > 8:
            return False
        if i.op in ("zext", "sext", "trunc", "freeze"):
            return self.steps(i.a[0], phi, d)
        if i.op in ("add", "sub", "or"):
            return any(self.steps(x, phi, d + 1) for x, y in (i.a, i.a[::-1]) if const(y) is not None)
        return False


def lengths_kept(m, config, dirs, least):
    """obligation per function with a length parameter in the given source directories"""
    from .ir import AnalysisError
    out = []
    for f in m.funcs.values():
        if f.decl or not f.file or not any(d in f.file for d in dirs):
            continue
        c = Cut(f)
        if not c.tainted:
            continue
        bad = list(c.cuts()) + list(c.narrow_counters())
        wh = "%s (%s:%s)" % (f.dem.split("(")[0], f.file.replace("/repo/", ""), f.line)
        out.append(Result("%s lengths kept whole in %s" % (config, f.dem), not bad, wh,
                          "; ".join("a value computed from a length is cut to %s bits at %s and used as a number" % (i.ty.w if i.op == "trunc" else "some", m.loc(i.loc)) for i, u in bad)))
    if len(out) < least:
        raise AnalysisError("only %d functions with a length parameter in %s" % (len(out), dirs))
    return out


def counters_kept(m, config, dirs, least):
    """obligation per function with a loop over a length: nothing that counts its rounds wraps before 2^32"""
    from .ir import AnalysisError
    out = []
    for f in m.funcs.values():
        if f.decl or not f.file or not any(d in f.file for d in dirs) or not f.d["loops"]:
            continue
        c = Cut(f)
        bad = list(c.narrow_counters())
        wh = "%s (%s:%s)" % (f.dem.split("(")[0], f.file.replace("/repo/", ""), f.line)
        out.append(Result("%s counters of the loops of %s" % (config, f.dem), not bad, wh, "; ".join(
            "a counter of %s bits at %s wraps on long input" % (i.ty.w if i.op != "and" else "masked", m.loc(i.loc)) for i, u in bad)))
    if len(out) < least:
        raise AnalysisError("only %d functions with loops in %s" % (len(out), dirs))
    return out
