#!/usr/bin/env python3
"""C21: no hidden shared mutable state.

Effect analysis of the whole library (every function of src/ and every template instantiated by the harnesses): a
may-write summary per function, propagated over the call graph (virtual calls by vtable slot).  Obligations:
 * no function writes a variable with static or thread storage (once-only guarded initialisation of a local static from
   values that do not depend on any argument is allowed);
 * a const member function writes nothing reachable through its object, and nothing is written through a pointer or
   reference to const;
 * no member function keeps a pointer it was given (or a pointer into its own object) inside its object, so that a copied or
   moved object never refers to another object's memory;
 * no call to a C library function with hidden state other than rand/srand (which the cstd generator is defined by)."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.effects import Effects, split_params, CONSTP, NONREENTRANT
from vlib.ir import build_module, REPO, AnalysisError

HARN = ["sm.cpp", "modes.cpp", "hash.cpp", "hmac.cpp", "aes.cpp", "sm4.cpp", "ghash.cpp", "bytes.cpp", "rng.cpp"]


def guard_region(f):
    """(instructions executed only inside once-only initialisation) of one function"""
    calls = []
    for bi, b in enumerate(f.blocks):
        for i in b:
            if i.op in ("call", "invoke") and type(i.x["f"]) is list and i.x["f"][:2] == ["g", "__cxa_guard_acquire"]:
                calls.append(i.id)
    if not calls:
        return set()
    defs = {i.id: i for b in f.blocks for i in b if i.id >= 0}
    cut = set()
    for bi, b in enumerate(f.blocks):
        t = b[-1]
        if t.op == "br" and t.a and type(t.a[0]) is int:
            c = defs.get(t.a[0])
            if c is not None and c.op == "icmp" and any(type(a) is int and a in calls for a in c.a):
                pred = c.x.get("p") or c.x.get("pred")
                yes = t.x["s"][0] if pred in ("ne", 33) else t.x["s"][1]
                cut.add((bi, yes))
    seen = {0}
    st = [0]
    while st:
        b = st.pop()
        for s in f.succ[b]:
            if (b, s) in cut or s in seen:
                continue
            seen.add(s)
            st.append(s)
    region = set()
    for bi, b in enumerate(f.blocks):
        if bi not in seen:
            for i in b:
                region.add(id(i))
    return region


def arg_tainted(f):
    """values computed from the arguments (loads through argument pointers included)"""
    t = set(range(len(f.args)))
    mem = set()
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for i in b:
                ops = [a[0] if i.op == "phi" else a for a in i.a]
                if i.id >= 0 and i.id not in t and i.op != "alloca" and any(type(a) is int and (a in t or (i.op == "load" and a in mem)) for a in ops):
                    t.add(i.id)
                    ch = True
                if i.op == "store" and type(i.a[0]) is int and i.a[0] in t and type(i.a[1]) is int and i.a[1] not in mem:
                    mem.add(i.a[1])
                    ch = True
    return t


def analyse(config):
    m = build_module(config, HARN)
    E = Effects(m)
    repo = [f for f in E.defs if f.file and f.file.startswith(REPO + "/")]
    if len(repo) < 700:
        raise AnalysisError("only %d library functions analysed" % len(repo))
    ctor = {f.name for f in E.defs if f.name.startswith(("__cxx_global_var_init", "_GLOBAL__sub_I"))}
    res = []
    mine = lambda g: not g["dem"].startswith(("vtable", "typeinfo", "VTT", "guard variable")) and not g["name"].startswith((".str", "_ZTV", "_ZTI", "_ZTS", "_ZGV", "__"))

    def chain(fn, base, depth=0):
        i, via = E.W[fn][base]
        s = "%s (%s)" % (m.funcs[fn].dem.split("(")[0], m.loc(i.loc))
        if via is None or via not in E.W or depth > 6:
            return s
        for b in E.W[via]:
            if b[0] == "g" and b == base or b[0] in ("p", "d"):
                return s + " -> " + m.funcs[via].dem.split("(")[0]
        return s
    bad = {}
    nwr = 0
    for f in E.defs:
        if f.name in ctor:
            continue
        region = None
        for base, (i, via) in E.W[f.name].items():
            nwr += 1
            if base[0] != "g" or base[1] not in m.globals:
                continue
            if via is not None and via in E.W and base in E.W[via]:
                continue    # reported in the function that does it
            if base[1].startswith("_ZGV") or not mine(m.globals[base[1]]):
                continue
            if region is None:
                region = guard_region(f)
                taint = arg_tainted(f) if region else set()
            # every write of this function to the global must be guarded and independent of the arguments
            ok = True
            for b in f.blocks:
                for j in b:
                    w = False
                    if j.op == "store":
                        w = base in E.info[f.name].b(j.a[1])
                    elif j.op in ("call", "invoke"):
                        w = any(base in E.info[f.name].b(a) for a in j.a)
                    if w:
                        if id(j) not in region:
                            if j.op == "store" or not readonly_call(E, f, j, base):
                                ok = False
                                i = j
                        elif any(type(a) is int and a in taint for a in j.a):
                            ok = False
                            i = j
            if not ok:
                bad.setdefault(base[1], []).append((f, i))
    n = 0
    for g in m.globals.values():
        if not mine(g):
            continue
        n += 1
        name = g["dem"]
        if g["name"] not in bad:
            res.append(Result("static/%s/%s" % (config, name), True))
        else:
            f, i = bad[g["name"]][0]
            res.append(Result("static/%s/%s" % (config, name), False, m.loc(i.loc),
                              "variable with static storage is modified by %s" % f.dem))
    res.append(Result("static/%s" % config, not bad, "", "", {"variables": n, "functions analysed": len(E.defs), "may-write facts": nwr, "call sites": len(E.sites)}))
    # const receivers and pointers to const
    nc = 0
    for f in repo:
        ps = split_params(f.dem)
        nargs = len(f.args)
        sret = 1 if f.args and "sret" in f.args[0] else 0
        if ps is None:
            continue
        extra = nargs - len(ps) - sret
        if extra not in (0, 1):
            continue
        if re.match(r"_ZZ?N[rV]*K", f.name) and not re.search(r"Ul\w*E\d*_cl", f.name):
            nc += 1
            for k in (("p", sret), ("d", sret)):
                w = E.W[f.name].get(k)
                if w:
                    res.append(Result("const/%s/%s" % (config, f.dem), False, m.loc(w[0].loc), "const member function modifies its object"))
        for k, p in enumerate(ps):
            if CONSTP.search(p):
                nc += 1
                w = E.W[f.name].get(("p", k + sret + extra))
                if not w:
                    res.append(Result("const/%s/%s/%d" % (config, f.dem, k), True))
                else:
                    res.append(Result("const/%s/%s/%d" % (config, f.dem, k), False, m.loc(w[0].loc), "writes through a pointer to const (%s)" % p))
        # kept pointers
        if extra == 1:
            nc += 1
            for (d, v), i in E.ST[f.name].items():
                if d == ("p", sret) and v[0] in ("p", "d", "l"):
                    res.append(Result("kept/%s/%s" % (config, f.dem), False, m.loc(i.loc), "keeps a pointer to %s inside the object" % (
                        "its own object" if v == ("p", sret) else "memory of its caller" if v[0] == "p" else "memory reached through its object" if v[0] == "d" else "a local variable")))
                    break
    res.append(Result("const/%s" % config, True, "", "", {"const obligations": nc}))
    for f in m.funcs.values():
        if f.decl and f.name in NONREENTRANT:
            users = [g.dem for g in repo if f.name in E.info[g.name].callees()]
            if users:
                res.append(Result("libc/%s/%s" % (config, f.name), False, users[0], "calls a C library function with hidden shared state"))
    return res


def readonly_call(E, f, j, base):
    names, _ = E.info[f.name].targets(j)
    for n in names:
        if n in E.W:
            for k, a in enumerate(j.a):
                if base in E.info[f.name].b(a) and ("p", k) in E.W[n]:
                    return False
            if base in E.W[n]:
                return True     # reported in the callee
        else:
            from vlib.effects import EXT
            if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset", "memcpy", "memmove", "memset")):
                if base in E.info[f.name].b(j.a[0]):
                    return False
            elif n in EXT:
                for k in EXT[n]:
                    if k < len(j.a) and base in E.info[f.name].b(j.a[k]):
                        return False
            elif not n.startswith("llvm."):
                return False
    return True


def main():
    c = Check("C21", "other",
              "may-write effect summaries of every library function over the whole call graph: no static or thread variable is modified outside argument-independent "
              "once-only initialisation, const member functions and pointers to const are never written through, no object keeps a foreign pointer",
              min_obligations=2000,
              assumptions=["clang 18 IR of the current sources is the analysed program", "library templates are those instantiated by harness/*.cpp",
                           "the C library's rand state (used by the cstd generator by definition) and the operating system are outside the library",
                           "a virtual call reaches only functions in the same vtable slot with the same parameter kinds"])
    c.run([(analyse, ("portable",)), (analyse, ("simd",))])
    c.finish()


if __name__ == "__main__":
    main()
