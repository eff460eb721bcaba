"""Reference definition of the ASN.1 element parser and of the structures built on it, on the unknowns of vlib.lin."""
from .lin import L, P, U, lin, Stop


def tlv_bytes(w, reg, off, inl):
    """the element that starts at off, or None (byte level definition)"""
    if not w.nonneg(lin(inl) - 1):
        return None
    b = w.byte(reg, off)
    num = w.mask(b, 31, 8)
    if w.is_zero(num - 31):
        return None
    cls, pc = w.mask(b, 0xC0, 8), w.mask(b, 0x20, 8)
    if not w.nonneg(lin(inl) - 2):
        return None
    l0 = w.byte(reg, lin(off) + 1)
    if w.nonneg(L(127) - l0):
        ln, hdr = l0, 2
    else:
        n = l0 - 128
        if w.is_zero(n):
            return None
        if not w.nonneg(L(8) - n):
            return None
        if not w.nonneg(lin(inl) - 2 - n):
            return None
        for k in range(1, 9):
            if w.is_zero(n - k):
                break
        ln = L(0)
        for j in range(k):
            ln = ln + w.byte(reg, lin(off) + 2 + j).scale(1 << (8 * (k - 1 - j)))
        hdr = 2 + k
    if not w.nonneg(lin(inl) - hdr - w.norm(ln)):
        return None
    return {"cls": w.norm(cls), "pc": w.norm(pc), "num": w.norm(num), "hdr": lin(hdr), "len": w.norm(ln)}


def tlv_abstract(w, reg, off, inl):
    """the same with uninterpreted results: any parser outcome that stays inside the input"""
    off, inl = w.norm(off), w.norm(inl)
    k = (reg, off.key(), inl.key())
    for q in w.memo.setdefault("tlvs", []):
        if q[0] == reg and q != k and w.equal(L(q[1][0], dict(q[1][1])), off) and w.equal(L(q[2][0], dict(q[2][1])), inl):
            k = q
            break
    else:
        if k not in w.memo["tlvs"]:
            w.memo["tlvs"].append(k)
    if not w.flag(("element at",) + k):
        return None
    new = not w.known(("hdr",) + k)
    c = w.sym(("cls",) + k, 0, 3)
    p = w.sym(("pc",) + k, 0, 1)
    n = w.sym(("num",) + k, 0, 30)
    h = w.sym(("hdr",) + k, 2, 10)
    ln = w.sym(("len",) + k, 0, (1 << 63) - 1)
    if new:
        w.add(inl - h - ln)
    return {"cls": c.scale(64), "pc": p.scale(32), "num": n, "hdr": w.norm(h), "len": w.norm(ln)}


def boolean(w, t, reg, off):
    if not w.is_zero(t["pc"]) or not w.is_zero(t["num"] - 1) or not w.is_zero(t["len"] - 1):
        return None
    v = w.byte(reg, off + t["hdr"])
    return {"value": L(0) if w.is_zero(v) else L(1)}


def integer(w, t, reg, off):
    if not w.is_zero(t["pc"]) or not w.is_zero(t["num"] - 2) or not w.nonneg(t["len"] - 1):
        return None
    o, n = off + t["hdr"], t["len"]
    if w.nonneg(n - 2):
        a, b = w.byte(reg, o), w.byte(reg, o + 1)
        if w.is_zero(a) and w.nonneg(L(127) - b):
            return None
        if w.is_zero(a - 255) and w.nonneg(b - 128):
            return None
        if w.is_zero(a):
            return {"ptr": o + 1, "len": n - 1}
    return {"ptr": o, "len": n}


def bit_string(w, t, reg, off):
    if not w.is_zero(t["num"] - 3) or not w.nonneg(t["len"] - 1):
        return None
    o, n = off + t["hdr"], t["len"]
    u = w.byte(reg, o)
    if not w.nonneg(L(7) - u):
        return None
    if w.is_zero(n - 1) and not w.is_zero(u):
        return None
    return {"ptr": o + 1, "len": n - 1, "bits": (n - 1).scale(8) - u}


def octet_string(w, t, reg, off):
    return {"ptr": off + t["hdr"], "len": t["len"]} if w.is_zero(t["num"] - 4) else None


def null(w, t, reg, off):
    return {} if w.is_zero(t["pc"]) and w.is_zero(t["num"] - 5) and w.is_zero(t["len"]) else None


def sequence(w, t, reg, off, n=16):
    return {"ptr": off + t["hdr"], "len": t["len"]} if w.is_zero(t["pc"] - 32) and w.is_zero(t["num"] - n) else None


def set_(w, t, reg, off):
    return sequence(w, t, reg, off, 17)


PRIM = {"boolean": (boolean, ["value"]), "integer": (integer, ["ptr", "len"]), "bit_string": (bit_string, ["ptr", "len", "bits"]),
        "octet_string": (octet_string, ["ptr", "len"]), "null": (null, []), "sequence": (sequence, ["ptr", "len"]), "set": (set_, ["ptr", "len"])}
SIZE = {"value": 1, "ptr": 8, "len": 8, "bits": 8}


def element(w, kind, reg, off, inl, tlv):
    """decoded fields and number of bytes consumed, or None"""
    off = w.norm(off)
    t = tlv(w, reg, off, inl)
    if t is None:
        return None
    r = PRIM[kind][0](w, t, reg, off)
    if r is None:
        return None
    return dict({k: w.norm(v) for k, v in r.items()}, read=w.norm(t["hdr"] + t["len"]))


def structure(w, name, reg, inl, tlv):
    """the SM2 structures: output fields in memory order and bytes consumed, or None"""
    if name == "private_key":
        e = element(w, "integer", reg, L(0), inl, tlv)
        if e is None or not w.is_zero(e["len"] - 32):
            return None
        return [("ptr", e["ptr"])], e["read"]
    if name == "public_key":
        e = element(w, "bit_string", reg, L(0), inl, tlv)
        if e is None or not w.is_zero(e["len"] - 65) or not w.is_zero(e["bits"] - 520):
            return None
        return [("ptr", e["ptr"])], e["read"]
    s = element(w, "sequence", reg, L(0), inl, tlv)
    if s is None:
        return None
    o, n = s["ptr"], s["len"]
    out = []
    for kind in (["integer"] * 2 if name == "signature" else ["integer", "integer", "octet_string", "octet_string"]):
        e = element(w, kind, reg, o, n, tlv)
        if e is None:
            return None
        if kind == "integer":
            if not w.is_zero(e["len"] - 32):
                return None
            out.append(("ptr", e["ptr"]))
        else:
            out += [("ptr", e["ptr"]), ("len", e["len"])]
        o, n = w.norm(o + e["read"]), w.norm(n - e["read"])
    if not w.is_zero(n):
        return None
    return out, s["read"]


# ------------------------------------------------------------------ summaries
def hook_tlv(w, g, a):
    tlv, rn, p, inl = a
    w.access(p, inl, "read (through %s)" % g.dem.split("(")[0])
    t = tlv_abstract(w, p.r, p.o, inl)
    for off, n, k in ((0, 4, "cls"), (4, 4, "pc"), (8, 4, "num"), (16, 8, "len")):
        w.store(P(tlv.r, tlv.o + off), U if t is None else t[k], n)
    w.store(P(tlv.r, tlv.o + 24), U if t is None else P(p.r, w.norm(p.o + t["hdr"])), 8)
    w.store(rn, U if t is None else w.norm(t["hdr"] + t["len"]), 8)
    return fail(w, g, t is None)


def fail(w, g, failed):
    if not failed:
        return L(0)
    w.memo.setdefault("failed", []).append("%s at %s" % (g.dem.split("(")[0], w.where()))
    return L((1 << 32) - 1)


def hook_element(kind):
    def h(w, g, a):
        outs = PRIM[kind][1]
        rn, p, inl = a[len(outs):]
        w.access(p, inl, "read (through %s)" % g.dem.split("(")[0])
        e = element(w, kind, p.r, p.o, inl, tlv_abstract)
        for q, k in zip(a, outs):
            w.store(q, U if e is None else P(p.r, e[k]) if k == "ptr" else e[k], SIZE[k])
        w.store(rn, U if e is None else e["read"], 8)
        return fail(w, g, e is None)
    return h
