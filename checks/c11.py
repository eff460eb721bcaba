import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check
from vlib.ir import build_module
from vlib import curve, scalar
from vlib.curve import SM2
from vlib.util import ASSUME, tag_jobs

B = {"SM2_CURVE_P": curve.CONSTS["fp2"], "SM2_CURVE_A": curve.CONSTS["fp2"] - 3, "SM2_CURVE_B": SM2.b[0], "SM2_CURVE_N": curve.CONSTS["fn2"],
     "SM2_CURVE_GX": SM2.g[0][0], "SM2_CURVE_GY": SM2.g[1][0]}


def run():
    c = Check("C11", "proof", "every point operation of sm2_ec_* returns the point the group law prescribes, as an identity of rational functions of the "
              "operand coordinates, for generic, equal, opposite and infinite operands and every overlap of result and operands; scalar multiplication "
              "computes [k]P as an integer-polynomial identity in the bits of k for every reduction case and leading-bit position; curve constants "
              "are those of GB/T 32918.5", 150,
              ASSUME + ["field and integer arithmetic is exact (C09, C10)", "GB/T 32918.5: the curve has the stated prime order (so no point has y = 0 and [n]P is infinity)"])
    jobs = []
    for cfg in ("portable", "simd"):
        m = build_module(cfg, ["sm.cpp"])
        j = [(curve.constants, (m, SM2, [(k, v.to_bytes(32, "big")) for k, v in B.items()] + [("SM2_DEFAULT_ID", b"1234567812345678")]))]
        j += scalar.jobs(m, SM2)
        j += [(scalar.t_mulg, (m, SM2))]
        j += curve.jobs(m, SM2)
        jobs += tag_jobs(cfg, j)
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    run()
