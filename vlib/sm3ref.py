"""GB/T 32905 (SM3) over the bit domain."""
from .anf import bxor, band, bnot, tobits, mk, lin_add, Bits, table_lookup

IV = [0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e]


def w32(b4):
    out = ()
    for x in reversed(b4):
        out += tobits(x, 8)
    return mk(out)


def rotl(v, n):
    n %= 32
    b = tobits(v, 32)
    return mk(b[32 - n:] + b[:32 - n])


def x(*vs):
    r = tobits(vs[0], 32)
    for v in vs[1:]:
        r = tuple(bxor(a, b) for a, b in zip(r, tobits(v, 32)))
    return mk(r)


def add(*vs):
    r = vs[0]
    for v in vs[1:]:
        r = lin_add(32, r, v) if not (type(r) is int and type(v) is int) else (r + v) & 0xffffffff
    return r


def P0(v):
    return x(v, rotl(v, 9), rotl(v, 17))


def P1(v):
    return x(v, rotl(v, 15), rotl(v, 23))


def FF(j, a, b, c):
    if j < 16:
        return x(a, b, c)
    return mk([bxor(bxor(band(p, q), band(p, r)), band(q, r)) for p, q, r in zip(tobits(a, 32), tobits(b, 32), tobits(c, 32))])


def GG(j, a, b, c):
    if j < 16:
        return x(a, b, c)
    return mk([bxor(band(p, q), band(bnot(p), r)) for p, q, r in zip(tobits(a, 32), tobits(b, 32), tobits(c, 32))])


def compress(V, block):
    W = [w32(block[4 * i:4 * i + 4]) for i in range(16)]
    for j in range(16, 68):
        W.append(x(P1(x(W[j - 16], W[j - 9], rotl(W[j - 3], 15))), rotl(W[j - 13], 7), W[j - 6]))
    W1 = [x(W[j], W[j + 4]) for j in range(64)]
    A, B, C, D, E, F, G, H = V
    for j in range(64):
        T = 0x79cc4519 if j < 16 else 0x7a879d8a
        n = j % 32
        T = ((T << n) | (T >> (32 - n))) & 0xffffffff if n else T
        SS1 = rotl(add(rotl(A, 12), E, T), 7)
        SS2 = x(SS1, rotl(A, 12))
        TT1 = add(FF(j, A, B, C), D, SS2, W1[j])
        TT2 = add(GG(j, E, F, G), H, SS1, W[j])
        D, C, B, A = C, rotl(B, 9), A, TT1
        H, G, F, E = G, rotl(F, 19), E, P0(TT2)
    return [x(p, q) for p, q in zip(V, (A, B, C, D, E, F, G, H))]


def out_bytes(V):
    r = []
    for v in V:
        b = tobits(v, 32)
        r += [mk(b[8 * (3 - i):8 * (3 - i) + 8]) for i in range(4)]
    return r


def absorb(V, data):
    for i in range(0, len(data), 64):
        V = compress(V, data[i:i + 64])
    return V


def pad(nbytes_in_last, total_bits):
    """padding bytes; total_bits int or 64-bit Bits"""
    z = (56 - 1 - nbytes_in_last) % 64
    tb = tobits(total_bits, 64)
    return [0x80] + [0] * z + [mk(tb[8 * (7 - i):8 * (7 - i) + 8]) for i in range(8)]


def digest(data):
    return out_bytes(absorb(list(IV), data + pad(len(data) % 64, 8 * len(data))))
