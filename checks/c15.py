from _proto import run

S9 = "sm9spec"


def jobs(ck):
    deep = ck.tier != "quick"
    r = []
    for n in "ab":
        for il, hid in ((0, 1), (1, 1), (16, 1), (16, 3), (64, 255), (65, 0)) + ((((i, 1)) for i in range(2, 60, 5)) if deep else ()):
            r.append(((S9, "extract"), n, il, hid, "C15"))
            for tag in (2, 3, 4, 6, 7):
                r.append(((S9, "verify"), n, tag, 0, il, hid, "C15"))
        for tag in (2, 4, 7):
            for extra in (-40, -1, 1, 8):
                r.append(((S9, "verify"), n, tag, extra, 16, 1, "C15"))
        r.append(((S9, "verify"), n, 4, 0, 16, 1, "C15", True))
        r.append(((S9, "verify"), n, 3, 0, 16, 1, "C15", True))
        for pc in (0, 1, 2):
            r.append(((S9, "sign"), n, pc, "C15", 3 if deep else 2))
        r += [(("valid", "sm9_gen"), n, h, "C15") for h in ("gen", "newgen")]
    return r


if __name__ == "__main__":
    run("C15", "on every path through SM9 key extraction, signing and verification, over named unknowns for keys, message, identity, random "
        "numbers and digests, the outputs are the terms GB/T 38635.2 prescribes, and accept, reject, failure and retry are justified by the "
        "conditions decided on the path", 90, jobs,
        ["message length arbitrary; identity lengths are the enumerated ones", "verification for an identity whose H1 value cancels the master key (for which no key can be extracted) is left out"])
