"""shared driver of C14-C17"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check
from vlib.ir import build_module
from vlib.util import ASSUME, tagged
from vlib.lens import counters_kept
from vlib import sm2spec, sm9spec, valid

MODS = {}
LAYERS = ["hash functions, big-integer, residue, curve, extension-field and pairing operations are replaced by their specifications, decided by C03, C09-C13",
          "points of order dividing n only: a point on the curve has the curve's prime order (SM2, SM9 G1: cofactor 1)"]


def job(cfg, fn, *a):
    for mod in (sm2spec, sm9spec, valid):
        if getattr(mod, "__name__") == "vlib." + fn[0]:
            return tagged(cfg, getattr(mod, fn[1]), MODS[cfg], *a)


def counters(cfg, dirs, least):
    return counters_kept(MODS[cfg], cfg, dirs, least)


def run(prop, rule, minimum, jobs, assume=()):
    ck = Check(prop, "other", rule, minimum, ASSUME + LAYERS + list(assume))
    js = []
    for cfg in ("portable", "simd"):
        MODS[cfg] = build_module(cfg, ["sm.cpp"])
        js += [(job, (cfg,) + j) for j in jobs(ck)]
        if prop in ("C14", "C15"):
            js.append((counters, (cfg, ["/sm2/"] if prop == "C14" else ["/sm9/"], 1)))
    ck.run(js)
    ck.finish()
