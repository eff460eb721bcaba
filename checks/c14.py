from _proto import run, sm2spec

S2 = "sm2spec"


def jobs(ck):
    deep = ck.tier != "quick"
    r = []
    for n in "ab":
        for il in (0, 1, 16, 8191, 8192) + ((31, 64, 255, 256, 1000, 8190, 10000) if deep else ()):
            r.append(((S2, "sign"), n, il, "C14", 3 if deep else 2))
            r.append(((S2, "verify"), n, il, "C14"))
        r.append(((S2, "sign"), n, 16, "C14", 2, True))
        r.append(((S2, "verify"), n, 16, "C14", True))
        r += [(("valid", "sm2_gen"), n, h, "C14") for h in ("gen", "newgen")]
        ds = sm2spec.DS[n]
        for pl in (0, 1, ds - 1, ds, ds + 1, 2 * ds, 2 * ds + 5) + (tuple(range(2, 5 * ds, 7)) if deep else ()):
            for pc in (0, 1, 2):
                r.append(((S2, "encrypt"), n, pl, pc, "C14", False, 3 if deep else 2))
            for tag in (2, 3, 4, 6, 7):
                r.append(((S2, "decrypt"), n, tag, pl, "C14"))
        r.append(((S2, "encrypt"), n, 5, 0, "C14", True))
    return r


if __name__ == "__main__":
    run("C14", "on every path through SM2 signing, verification, encryption and decryption, over named unknowns for key, message, identity, "
        "random numbers and digests, the outputs are the terms GB/T 32918 prescribes, and the path taken (accept, reject, retry) is justified by "
        "the conditions decided on it: accept needs all conditions of the standard, reject or retry needs one violated", 150, jobs,
        ["message length arbitrary for signatures; plaintext and identity lengths are the enumerated ones", "at most two (thorough: three) attempts per call; later ones run the same code"])
