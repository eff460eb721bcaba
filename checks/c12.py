import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check
from vlib.ir import build_module
from vlib import tower, power
from vlib.util import ASSUME, tag_jobs


def run():
    c = Check("C12", "proof", "every sm9_fp2/fp4/fp12 operation equals the operation of F_p[w]/(w^12+2) (u = w^6, v = w^3) as an identity of polynomials "
              "in the coefficients of its operands, for separate and shared storage; powering is an integer-polynomial identity in the exponent bits", 120,
              ASSUME + ["prime-field arithmetic is exact (C10)"])
    jobs = []
    for cfg in ("portable", "simd"):
        m = build_module(cfg, ["sm.cpp"])
        jobs += tag_jobs(cfg, tower.jobs(m) + power.jobs(m))
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    run()
