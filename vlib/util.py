import os, re
from .core import Result
from .ir import AnalysisError, repo_sources, REPO
from .engine import Ptr, UNDEF, Part, Sel
from . import anf

ASSUME = ["clang 18 front end lowers the source faithfully to LLVM IR", "little-endian LP64 x86-64 data layout",
          "the abstract transfer functions in vlib/ are sound"]


def src_of(*prefixes):
    r = [s for s in repo_sources() if any(s[len(REPO) + 5:].startswith(p) for p in prefixes)]
    if not r:
        raise AnalysisError("no sources under src/" + str(prefixes))
    return r


def const_array(m, name, w):
    g = m.globals.get(name)
    if g is None:
        raise AnalysisError("harness constant " + name)
    b = bytes.fromhex(g["data"])
    return [int.from_bytes(b[i:i + w], "little") for i in range(0, len(b), w)]


def named_modes(m, config, modes):
    """the modes named after a cipher are the generic modes over that cipher"""
    out = []
    for g in sorted(m.globals.values(), key=lambda x: x["name"]):
        k = re.fullmatch(r"h_alias_(AES128|AES192|AES256|SM4)([A-Z][a-z]{2})(En|De)cryptor", g["name"])
        if k and k.group(2) in modes:
            ok = int.from_bytes(bytes.fromhex(g["data"] or "00"), "little") == 1
            out.append(Result("%s: the named type %s%s%scryptor" % ((config,) + k.groups()), ok,
                              "include/gmlib/%s_mode.h" % ("sm4/sm4" if k.group(1) == "SM4" else "aes/aes"),
                              "it is not the %s mode's %scryptor over %s" % (k.group(2), k.group(3).lower(), k.group(1))))
    if len(out) != 8 * len(modes):
        raise AnalysisError("%d named modes instead of %d" % (len(out), 8 * len(modes)))
    return out


def mem_input(eng, st, name, n, slack=0):
    """object of exactly n bytes holding symbolic input `name`"""
    key = eng.new_obj(st, name, n + slack, "input")
    o = st.mem[key]
    for i, b in enumerate(anf.inp(name, n)):
        o.cells[i] = b
    return Ptr(key, 0)


def mem_const(eng, st, name, data):
    key = eng.new_obj(st, name, len(data), "input")
    o = st.mem[key]
    for i, b in enumerate(data):
        o.cells[i] = b
    return Ptr(key, 0)


def mem_values(eng, st, name, cells):
    key = eng.new_obj(st, name, len(cells), "input")
    o = st.mem[key]
    for i, b in enumerate(cells):
        o.cells[i] = b
    return Ptr(key, 0)


def read(eng, st, p, n):
    """byte cells (UNDEF where never written)"""
    o = eng.obj(st, p.obj)
    r = []
    for i in range(n):
        c = eng.load_cell(st, o, p.off + i)
        if c is UNDEF or isinstance(c, Sel):
            r.append(c)
        else:
            r.append(eng.join_bytes([c]))
    return r


def snapshot(st, p):
    return dict(st.mem[p.obj].cells)


def stats(eng):
    return {"blocks": eng.stats["blocks"], "steps": eng.steps, "merges": eng.stats["merges"],
            "functions": [eng.m.funcs[f].dem.split("(")[0] for f in eng.stats["functions"] if not f.startswith("h_")]}


def loc(f):
    fn = f.file or "?"
    fn = os.path.normpath(fn)
    return fn.replace(REPO + "/", "") + ":" + str(f.line)


def real_where(eng, f):
    """name the repository functions the obligation went through"""
    fs = sorted({"%s (%s)" % (eng.m.funcs[x].dem.split("(")[0], loc(eng.m.funcs[x]))
                 for x in eng.stats["functions"] if not x.startswith("h_") and REPO in (eng.m.funcs[x].file or "")})
    return "; ".join(fs[:6])


def compare(key, got, want, eng, f):
    if len(got) != len(want):
        return Result(key, False, real_where(eng, f), "length %d instead of %d" % (len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        if g is UNDEF or isinstance(g, Sel):
            return Result(key, False, real_where(eng, f), "byte %d is never written (or only on some paths)" % i, stats(eng))
        gb, wb = anf.tobits(g, 8), anf.tobits(w, 8)
        if gb != wb:
            j = [a == b for a, b in zip(gb, wb)].index(False)
            return Result(key, False, real_where(eng, f), "byte %d bit %d: code computes %s ; required %s" % (
                i, j, anf.show_bit(gb[j], 4), anf.show_bit(wb[j], 4)), stats(eng))
    return Result(key, True, real_where(eng, f), "", stats(eng))


def same(key, a, b, eng, f):
    for k in set(a) | set(b):
        if k not in a or k not in b or a[k] != b[k]:
            return Result(key, False, real_where(eng, f), "byte %d of the object changes" % k, stats(eng))
    return Result(key, True, real_where(eng, f), "", {})


def tagged(prefix, fn, *args):
    """run an obligation and put the configuration in front of its key"""
    from .engine import Finding
    try:
        r = fn(*args)
    except Finding as e:
        e.key = "%s: %s" % (prefix, getattr(e, "key", None) or fn.__name__)
        raise
    for x in r if isinstance(r, list) else [r]:
        x.key = "%s: %s" % (prefix, x.key)
    return r


def tag_jobs(prefix, jobs):
    return [(tagged, (prefix, f) + tuple(a)) for f, a in jobs]
