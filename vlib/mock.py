"""Uninterpreted block cipher: E(K, .) and its inverse D(K, .), nothing else assumed."""
from .engine import Ptr, Finding, UNDEF, Sel
from .anf import Bits, atom_bit, tobits, mk, inp
from . import anf

HKEYS = {}


def cipher(key, bs, cells, direction, zero=None):
    """abstract block operation on byte cells"""
    bits = tuple(b for c in cells for b in tobits(c, 8))
    kbits = tuple(b for c in key for b in tobits(c, 8))
    if direction and zero is not None and not any(bits):
        return list(zero)
    # D(K, E(K, x)) = x and E(K, D(K, x)) = x
    inner = INV.get((kbits, direction, bits))
    if inner is None:
        out = tuple(atom_bit(("E" if direction else "D", kbits, bits, j)) for j in range(8 * bs))
        INV[(kbits, 1 - direction, out)] = bits
    else:
        out = inner
    return [mk(out[8 * i:8 * i + 8]) for i in range(bs)]


INV = {}


def install(eng, zero=None):
    def setkey(eng, st, f, args):
        c, k, d = args
        if d not in (0, 1):
            raise Finding("key", "cipher key set up for an unknown direction %r" % (d,), eng.where())
        cells = eng.load_bytes(st, k, 16)
        for x in cells:
            if x is UNDEF or isinstance(x, Sel):
                raise Finding("undef", "key schedule derived from uninitialised bytes", eng.where())
        eng.store_cells(st, c, cells + [d])
        return None

    def blocks(eng, st, f, args):
        c, out, inn, n, bs, d = args
        key = eng.load_bytes(st, c, 17)
        if UNDEF in key:
            raise Finding("undef", "block cipher used before a key was set", eng.where())
        if key[16] != d:
            raise Finding("key", "block cipher used in %s direction with a key set up for the other direction" %
                          ("encryption" if d else "decryption"), eng.where())
        if type(n) is not int:
            raise Finding("blocks", "number of blocks is data dependent", eng.where())
        if n == 0:
            return None
        data = eng.load_bytes(st, inn, n * bs)
        if out.obj == inn.obj and out.off != inn.off and abs(out.off - inn.off) < n * bs:
            raise Finding("overlap", "block cipher called with partially overlapping buffers", eng.where())
        res = []
        for k in range(n):
            blk = data[k * bs:k * bs + bs]
            for x in blk:
                if x is UNDEF or isinstance(x, Sel):
                    raise Finding("undef", "block cipher input byte is uninitialised", eng.where())
            blk = [eng.join_bytes([x]) for x in blk]
            res += cipher([eng.join_bytes([x]) for x in key[:16]], bs, blk, d, zero)
        eng.store_cells(st, out, res)
        return None
    eng.hook(r"^mock_setkey$", setkey)
    eng.hook(r"^mock_blocks$", blocks)
