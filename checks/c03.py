import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.ir import build_module, AnalysisError
from vlib.engine import Engine, State, Ptr
from vlib import anf, sm3ref
from vlib.anf import AnfDomain, inp, tobits, Bits, mk, atom_bit
from vlib.lens import lengths_kept
from vlib.util import *

MODS = {}


def setup(config):
    m = MODS[config]
    eng = Engine(m, AnfDomain())
    st = State()
    info = const_array(m, "h_sm3_info", 8)
    ctx = Ptr(eng.new_obj(st, "sm3", info[0]), 0)
    st, _ = eng.call1(st, m.fn("h_sm3_new"), [ctx])
    return m, eng, st, ctx, info


def oneshot(config, n, how):
    key = "%s SM3 of a %d-byte message (%s)" % (config, n, how)
    m, eng, st, ctx, info = setup(config)
    if info[1] != 64 or info[2] != 32:
        return Result(key, False, "", "declares block %d digest %d" % (info[1], info[2]))
    src = mem_input(eng, st, "msg", n)
    out = Ptr(eng.new_obj(st, "digest", 32), 0)
    msg = inp("msg", n)
    if how == "final":
        st, _ = eng.call1(st, m.fn("h_sm3_finaln"), [ctx, out, src, n])
    else:
        if how == "reuse":
            junk = mem_input(eng, st, "junk", 70)
            st, _ = eng.call1(st, m.fn("h_sm3_update"), [ctx, junk, 70])
            st, _ = eng.call1(st, m.fn("h_sm3_reset"), [ctx])
        st, _ = eng.call1(st, m.fn("h_sm3_update"), [ctx, src, n])
        st, _ = eng.call1(st, m.fn("h_sm3_final"), [ctx, out])
    f = m.fn("h_sm3_final")
    return [compare(key, read(eng, st, out, 32), sm3ref.digest(msg), eng, f),
            compare(key + ": message preserved", read(eng, st, src, n), msg, eng, f)]


def find_counter(m, eng, st, ctx, info):
    """offset and unit of the message-length counter: the only 8-byte cell that counts blocks"""
    vals = []
    s = st
    for k in range(3):
        cells = [eng.load_cell(s, s.mem[ctx.obj], i) for i in range(info[0])]
        vals.append(cells)
        b = mem_input(eng, s, "blk%d" % k, 64)
        s, _ = eng.call1(s, m.fn("h_sm3_update"), [ctx, b, 64])
    found = []
    for off in range(0, info[0] - 7, 8):
        w = [v[off:off + 8] for v in vals]
        if all(all(type(c) is int for c in x) for x in w):
            a, b, c = [int.from_bytes(bytes(x), "little") for x in w]
            if a == 0 and b in (512, 64, 1) and c == 2 * b:
                found.append((off, b))
    if len(found) != 1:
        raise AnalysisError("message length counter not identified: %s" % found)
    return found[0]


def longmsg(config, n, tail):
    """after an arbitrary number D of already processed bits, n further blocks and a tail"""
    key = "%s SM3 continuation: any processed length, then %d blocks and %d bytes" % (config, n, tail)
    m, eng, st, ctx, info = setup(config)
    off, unit = find_counter(m, *setup(config)[1:])
    first = mem_input(eng, st, "first", 64)
    st, _ = eng.call1(st, m.fn("h_sm3_update"), [ctx, first, 64])
    D = Bits(tuple(atom_bit(("in", "D", 0, j)) for j in range(64)))
    st.mem[ctx.obj] = o = st.mem[ctx.obj].clone(st.uid)
    for i, c in enumerate(eng.split(D, 8)):
        o.cells[off + i] = c
    src = mem_input(eng, st, "msg", 64 * n + tail)
    out = Ptr(eng.new_obj(st, "digest", 32), 0)
    msg = inp("msg", 64 * n + tail)
    V = sm3ref.absorb(list(sm3ref.IV), inp("first", 64))
    V = sm3ref.absorb(V, msg[:64 * n])
    res = []
    f = m.fn("h_sm3_update")
    outs = eng.call(st, f, [ctx, src, 64 * n])
    total = D
    scale = 512 // unit      # bits per counter unit
    thr = [o for o in outs if o[0] == "throw"]
    ret = [o for o in outs if o[0] == "ret"]
    if n == 0:
        res.append(Result(key + ": no failure without input", not thr and bool(ret), real_where(eng, f), "", {}))
    else:
        total = anf.lin_add(64, D, 512 * n) if unit == 512 else None
        if total is None:
            raise AnalysisError("length counter unit %d" % unit)
        over = anf.atom_bit(("ult", tobits(total, 64), tobits(D, 64)))
        res.append(overflow_guard(key + ": block update", eng, outs, over, f))
    if not ret:
        return res
    st = anf.settle(eng, ret[0][1])
    f = m.fn("h_sm3_finaln")
    tailp = mem_values(eng, st, "tail", msg[64 * n:])
    # the object now holds D + 512 n bits
    got_cnt = eng.join_bytes([eng.load_cell(st, st.mem[ctx.obj], off + i) for i in range(8)])
    outs = eng.call(st, f, [ctx, out, tailp, tail])
    tot2 = anf.lin_add(64, total, 8 * tail)
    thr = [o for o in outs if o[0] == "throw"]
    ret = [o for o in outs if o[0] == "ret"]
    if tail:
        over2 = anf.atom_bit(("ult", tobits(tot2, 64), tobits(total, 64)))
        res.append(overflow_guard(key + ": final", eng, outs, over2, f))
    elif thr:
        res.append(Result(key + ": final", False, real_where(eng, f), "fails without any overflow", {}))
    if ret:
        st = anf.settle(eng, ret[0][1])
        want = sm3ref.out_bytes(sm3ref.absorb(V, msg[64 * n:] + sm3ref.pad(tail, tot2)))
        res.append(compare(key, read(eng, st, out, 32), want, eng, f))
    return res


def overflow_guard(key, eng, outs, over, f):
    """the call fails exactly when the 64-bit message length would wrap"""
    thr = [o for o in outs if o[0] == "throw"]
    ret = [o for o in outs if o[0] == "ret"]
    if not thr:
        return Result(key + ": length overflow rejected", False, real_where(eng, f),
                      "no failure outcome: a message longer than 2^64-1 bits would be accepted", {})
    lits = {(k, p) for o in thr for t in o[1].paths for k, p in t}
    good = {(over, True)}
    ok = lits == good and all({(k, p) for t in o[1].paths for k, p in t} == {(over, False)} for o in ret)
    return Result(key + ": length overflow rejected", ok, real_where(eng, f),
                  "" if ok else "failure condition is %s, required: the bit length wraps" %
                  [(p, anf.show_bit(k)) for k, p in lits], {})


def lens(c):
    return lengths_kept(MODS[c], c, ["/sm3/", "/hash_lib/"], 1)


def main():
    ck = Check("C03", "other", "value-graph normal form of SM3 (compression, padding, length field, overflow guard) equals GB/T 32905", 60,
               ASSUME)
    src = src_of("sm3/")
    MODS["yang15"] = build_module("portable", ["hash.cpp"], srcs=src + src_of("ghash/"))
    MODS["common"] = build_module("portable", ["hash.cpp"], srcs=src + src_of("ghash/"), defs=[])
    MODS["yang15-simd"] = build_module("simd", ["hash.cpp"], srcs=src + src_of("ghash/"))
    jobs = []
    quick = ck.tier == "quick"
    for c in MODS:
        ns = range(0, 130) if not quick else list(range(0, 65)) + [119, 120, 127, 128, 129, 192]
        if c == "yang15-simd":
            ns = (0, 55, 56, 64, 119, 128)
        for n in ns:
            jobs.append((oneshot, (c, n, "final" if n % 2 else "update")))
        for n in (0, 1, 55, 56, 63, 64):
            jobs.append((oneshot, (c, n, "reuse")))
        for n, t in ((0, 0), (0, 1), (0, 55), (0, 56), (1, 0), (1, 63), (2, 7)) + (((3, 60), (4, 0)) if not quick else ()):
            jobs.append((longmsg, (c, n, t)))
    jobs.sort(key=lambda j: -(j[1][1] if j[0] is oneshot else 300))
    jobs += [(lens, (c,)) for c in MODS]
    ck.run(jobs)
    ck.finish()


main()
