"""DER reference: what an encoder has to write, on the unknowns of vlib.lin."""
from .lin import L, lin

FIELDS = {"private_key": [("int", "priv", 32)], "public_key": [("bits", "pub", 65)], "signature": [("int", "R", 32), ("int", "S", 32)],
          "cipher": [("int", "X", 32), ("int", "Y", 32), ("octets", "hash", 0), ("octets", "text", 0)]}


def length_octets(w, n):
    n = w.norm(n)
    if w.nonneg(L(127) - n):
        return [n]
    k = 1
    while not w.nonneg(L((1 << (8 * k)) - 1) - n):
        k += 1
    return [L(0x80 + k)] + [w.low(w.floor(n, 1 << (8 * j)), 256) for j in range(k - 1, -1, -1)]


def header(w, tag, n):
    return [(1, L(tag))] + [(1, b) for b in length_octets(w, lin(n))]


def hdrlen(w, n):
    return L(1 + len(length_octets(w, lin(n))))


def int_value(w, reg, off, k):
    """contents of the INTEGER encoding of the k-byte big-endian number"""
    z = 0
    while z < k and w.is_zero(w.byte(reg, off + z)):
        z += 1
    out = []
    if z == k or not w.nonneg(L(127) - w.byte(reg, off + z)):
        out.append((1, L(0)))
    if z < k:
        out.append((k - z, ("run", reg, (off + z).key())))
    return out


def expand(w, segs):
    """(offset, length, content), runs of constant length as single bytes"""
    out = []
    for o, n, c in segs:
        n = w.norm(n)
        if type(c) is tuple and c[0] == "run" and not n.d and n.c <= 4096:
            for j in range(n.c):
                out.append((w.norm(o + j), L(1), w.byte(c[1], L(c[2][0], dict(c[2][1])) + j)))
        elif type(c) is tuple and c[0] == "fill" and not n.d and n.c <= 4096:
            for j in range(n.c):
                out.append((w.norm(o + j), L(1), L(c[1][0], dict(c[1][1]))))
        else:
            out.append((w.norm(o), n, c))
    return out


def written(w, reg, want):
    """None, or what differs between the write log of a region and the wanted contents"""
    log = expand(w, w.regs[reg].log)
    at = L(0)
    segs = []
    for n, c in want:
        segs.append((at, lin(n), c))
        at = w.norm(at + n)
    used = {}
    for k, (o, n, c) in enumerate(log):
        used.setdefault(o.key(), []).append(k)
    for o, n, c in expand(w, segs):
        if w.equal(n, 0):
            continue
        ks = used.get(w.norm(o).key()) or [k for k, x in enumerate(log) if w.equal(x[0], o)]
        if not ks:
            return "nothing is written at offset %r" % o
        k = ks[-1]
        lo, ln, lc = log[k]
        if not w.equal(ln, n):
            return "%r bytes are written at offset %r instead of %r" % (ln, o, n)
        if type(c) is L:
            if type(lc) is not L or not w.equal(lc, c):
                return "the byte at offset %r is %r instead of %r" % (o, lc, w.norm(c))
        elif type(lc) is L or (lc[0], lc[1]) != (c[0], c[1]) or not w.equal(L(lc[2][0], dict(lc[2][1])), L(c[2][0], dict(c[2][1]))) or lc[3:] != c[3:]:
            return "offset %r receives %s instead of %s" % (o, lc, c)
        for lo, ln, lc in log[k + 1:]:
            if not w.proves(w.norm(lo - o - n)) and not w.proves(w.norm(o - lo - ln)):
                return "offset %r is overwritten at %r" % (o, lo)
    return None
