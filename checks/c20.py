#!/usr/bin/env python3
"""C20: no failure is swallowed, and no exception leaves a function declared not to throw.

Exceptions: for every call inside a non-throwing function whose exceptions would end the process, the throw sites it can
reach are computed over the call graph with interval contexts; the set must be empty.
Statuses: for every call of a fallible function (int result in {0, negative}, or a validity predicate) the caller is
executed forward with the result fixed to failure; every return reached has to report failure, a new attempt is allowed
only after a new random draw."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Result
from vlib.effects import Effects
from vlib.failflow import Throws, Failures, NZ, name_of
from vlib.ir import build_module, AnalysisError
from checks.c21 import HARN

# predicates whose false outcome means that the value must be rejected
PREDICATES = [r"::sm2_ec_a_check$", r"::sm9_ec2?_a_check$", r"::sm[29]_fp_check_bytes$", r"::SM2PublicKey<.*>::verify$", r"::SM9SignMasterPublicKey<.*>::verify$"]
# throw sites that need more than 2^61 bytes of message in one object (the length counter of the hash)
UNREACHABLE = {r"sm3::SM3::(update_blocks|final_block)": "only after 2^61 message bytes, which no caller can hold in memory"}
ENDS = ("exit", "_exit", "_Exit", "abort", "quick_exit", "__assert_fail", "_ZSt9terminatev", "raise", "kill")


def library(m, f):
    return f.file and "/include/c++" not in f.file and not f.dem.startswith(("std::", "h_"))


def q(f):
    return f.dem.split("(")[0]


def exceptions(config, m, E):
    T = Throws(E)
    res, nf, ns = [], 0, 0
    for f in E.defs:
        if f.dem.startswith("std::") or f.name.startswith(("__clang", "h_")):
            continue
        term = [(b, i) for b in range(len(f.blocks)) for i in f.blocks[b]
                if i.op in ("call", "invoke") and not i.x.get("nounwind") and T.handler(f, i) == "term"]
        if f.nounwind:
            nf += 1
        bad = {}
        if term:
            ctx = {k: (0, 1 << 56) for k, a in enumerate(f.args) if m.types[a["t"]].k == "i" and m.types[a["t"]].w == 64}
            fl = T.flow(f, ctx)
            for b, i in term:
                if b not in fl:
                    continue
                ns += 1
                for s, ch in T.sites_of_call(f, ctx, fl[b], i):
                    if not any(re.search(p, s) for p in UNREACHABLE):
                        bad.setdefault(s, (i, ch))
        for s, (i, ch) in bad.items():
            res.append(Result("noexcept/%s/%s/%s" % (config, q(f), s.split("(")[0]), False, m.loc(i.loc),
                              "%s does not let exceptions out, but %s may throw on the path %s: the process would be ended" % (q(f), s, " -> ".join(ch))))
        if not bad and f.nounwind:
            res.append(Result("noexcept/%s/%s" % (config, f.dem), True, stats={"calls inside non-throwing functions": len(term)}))
        for b in f.blocks:
            for i in b:
                n = name_of(m, i) if i.op in ("call", "invoke") else None
                if n in ENDS:
                    res.append(Result("ends/%s/%s" % (config, q(f)), False, m.loc(i.loc), "%s ends the process (%s)" % (q(f), n)))
    return res, nf


def statuses(config, m, E):
    F = Failures(E, PREDICATES)
    for f in E.defs:
        if re.search(r"::rd(rand|seed)\d+_retry$", q(f)) and f.ret.k == "i":
            F.fail[f.name] = {0}
    # functions that ask a generator
    gen = {n for n, f in m.funcs.items() if re.search(r"::gen\(void\*, (unsigned )?long\)", f.dem)} | {"mock_rng"}
    ch = True
    while ch:
        ch = False
        for f in E.defs:
            if f.name not in gen and E.info[f.name].callees() & gen:
                gen.add(f.name)
                ch = True
    res = []
    direct = dict(F.fail)
    todo = [f for f in E.defs]
    done = {}
    rnd = 0
    work = True
    while work:
        work = False
        rnd += 1
        if rnd > 12:
            raise AnalysisError("derived failure values do not settle")
        for f in E.defs:
            if f.name.startswith("h_"):
                continue
            occ = {}
            for b, blk in enumerate(f.blocks):
                for k, i in enumerate(blk):
                    if i.op == "landingpad":
                        if any(c[0] == "catch" for c in i.x.get("clauses", [])) and not any(
                                x.op == "call" and name_of(m, x) == "__clang_call_terminate" for x in blk):
                            key = "status/%s/%s/catch %d" % (config, f.dem, occ.setdefault("catch", 0))
                            occ["catch"] += 1
                            r, dv = judge(F, f, b, k + 1, {}, gen, m, "a caught exception", i)
                            done[key] = (r, i)
                        continue
                    if i.op not in ("call", "invoke"):
                        continue
                    ns = [n for n in E.info[f.name].targets(i)[0] if n in F.fail]
                    for n in ns:
                        g = m.funcs[n]
                        c = occ[n] = occ.get(n, 0) + 1
                        key = "status/%s/%s/%s %d" % (config, f.dem, q(g), c)
                        bad, derived = None, set()
                        for v in sorted(F.fail[n]):
                            r, dv = judge(F, f, b, k + 1, {i.id: v} if i.id >= 0 else {}, gen, m, "the failure of %s" % q(g), i)
                            bad = bad or r
                            derived |= dv
                        done[key] = (bad, i)
                        if not bad and derived and f.name not in direct:
                            old = F.fail.get(f.name, set())
                            if not derived <= old:
                                F.fail[f.name] = old | derived
                                work = True
    for key, (bad, i) in done.items():
        res.append(Result(key, not bad, m.loc(i.loc), bad or "", {"fallible calls": 1}))
    return res, len(direct)


def judge(F, f, b, k, regs, gen, m, what, at):
    """(complaint or None, values returned on failure)"""
    outs = F.run(f, b, k, regs, gen)
    vals = set()
    ret = f.ret
    for o in outs:
        if o[0] == "throw":
            continue
        if o[0] == "again":
            if not o[1]:
                return "after %s the same step is simply tried again or skipped in a loop" % what, set()
            continue
        v = o[1]
        if ret.k != "i" or ret.w > 32:
            return "after %s, %s returns normally (%s)" % (what, q(f), m.loc(o[2].loc)), set()
        if v is None:
            if ret.w == 1:
                return "after %s, %s may still return true (%s)" % (what, q(f), m.loc(o[2].loc)), set()
            return "after %s, %s may still return success (%s)" % (what, q(f), m.loc(o[2].loc)), set()
        vals.add(v)
    public = header(m, f)
    if ret.k == "i" and ret.w == 1:
        if 1 in vals or NZ in vals:
            if public or 0 in vals:
                return "after %s, %s returns true" % (what, q(f)), set()
            return None, {1}
        return None, {0} if vals and f.name not in F.fail else set()
    if ret.k == "i" and vals:
        if 0 in vals:
            return "after %s, %s returns 0, which is success" % (what, q(f)), set()
        return None, {v for v in vals if v != NZ}
    return None, set()


def header(m, f):
    """declared for others: not an internal-linkage helper"""
    return not f.d.get("internal", False) and not f.name.startswith("_ZL") and "L" != f.name[:1] and not re.search(r"\dL\d", f.name) and not re.match(r"_ZZ", f.name)


def analyse(config):
    m = build_module(config, HARN)
    E = Effects(m)
    a, nf = exceptions(config, m, E)
    b, nd = statuses(config, m, E)
    if nd < 20 or nf < 300 or len(b) < 30:
        raise AnalysisError("only %d fallible functions, %d non-throwing functions, %d status calls" % (nd, nf, len(b)))
    return a + b


def main():
    c = Check("C20", "other",
              "no throw site is reachable from a call inside a non-throwing function (call graph with interval contexts), no library function ends the process, and from every call "
              "of a fallible function every return reachable with the failing result reports failure or follows a new random draw",
              min_obligations=800,
              assumptions=["clang 18 IR of the current sources is the analysed program", "library templates are those instantiated by harness/*.cpp; the caller's hash and cipher types do not throw",
                           "memory for an exception object is available", "no object is larger than 2^56 bytes", "fallible: functions whose results are 0 and negative constants, and the validity predicates listed in the check"])
    c.run([(analyse, ("portable",)), (analyse, ("simd",))])
    c.finish()


if __name__ == "__main__":
    main()
