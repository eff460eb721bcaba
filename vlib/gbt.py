"""Constants recomputed from the standards (not copied from /repo)."""


def _sm4_sbox():
    # GB/T 32907: S(x) = A * inv(A * x + c) + c over GF(2)[x]/(x^8+x^7+x^6+x^5+x^4+x^2+1), c = 0xD3
    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a <<= 1
            if a & 0x100:
                a ^= 0x1F5
            b >>= 1
        return r
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if mul(a, b) == 1:
                inv[a] = b
                break

    def aff(x):
        # circulant matrix with row 0xA7 (bit-reversed convention below), constant 0xD3
        r = 0
        for i in range(8):
            row = ((0xA7 << i) | (0xA7 >> (8 - i))) & 0xFF
            bit = bin(row & x).count("1") & 1
            r |= bit << i
        return r ^ 0xD3
    return [aff(inv[aff(x)]) for x in range(256)]


SM4_SBOX = _sm4_sbox()
