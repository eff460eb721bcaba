import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check
from vlib.ir import build_module
from vlib import curve, scalar, pairing
from vlib.curve import SM9, SM9T
from vlib.util import ASSUME, tag_jobs


def fp2(c):
    return c[1].to_bytes(32, "big") + c[0].to_bytes(32, "big")


B = [(k, v.to_bytes(32, "big")) for k, v in {"SM9_CURVE_P": curve.CONSTS["fp9"], "SM9_CURVE_N": SM9.order, "SM9_CURVE_GX": SM9.g[0][0], "SM9_CURVE_GY": SM9.g[1][0]}.items()]
B += [("SM9_CURVE2_GX", fp2(SM9T.g[0])), ("SM9_CURVE2_GY", fp2(SM9T.g[1]))]


def run():
    c = Check("C13", "proof", "every point operation of sm9_ec_* and sm9_ec2_* returns the point the group law prescribes, as an identity of rational "
              "functions of the operand coordinates, for generic, equal, opposite and infinite operands and every overlap; scalar multiplication "
              "computes [k]P as an integer-polynomial identity in the bits of k; the line functions are the lines through the untwisted points; "
              "the Miller loop has the divisor of the R-ate pairing modulo verticals; the final exponent is (p^12-1)/n", 250,
              ASSUME + ["prime-field, integer and extension-field arithmetic is exact (C09, C10, C12)",
                        "GB/T 38635.5: the groups have the stated prime order and Frobenius acts on the second group as multiplication by p"])
    jobs = []
    for cfg in ("portable", "simd"):
        m = build_module(cfg, ["sm.cpp"])
        j = [(curve.constants, (m, SM9, B))]
        for cv in (SM9, SM9T):
            j += scalar.jobs(m, cv)
            j += [(scalar.t_mulg, (m, cv))]
            j += curve.jobs(m, cv)
        j += pairing.jobs(m)
        jobs += tag_jobs(cfg, j)
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    run()
