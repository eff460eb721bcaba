from _proto import run, sm2spec


def jobs(ck):
    deep = ck.tier != "quick"
    r = []
    d = 3 if deep else 2
    for n in "ab":
        r += [(("valid", "sm2_gen"), n, h, "C16") for h in ("gen", "newgen")]
        r += [(("valid", "sm9_gen"), n, h, "C16") for h in ("gen", "newgen")]
        r.append((("sm2spec", "sign"), n, 16, "C16", d))
        r.append((("sm2spec", "sign"), n, 16, "C16", d, True))
        ds = sm2spec.DS[n]
        for pl in (0, 1, ds, ds + 1) + ((2 * ds + 5, 4 * ds) if deep else ()):
            for pc in (0, 1, 2):
                r.append((("sm2spec", "encrypt"), n, pl, pc, "C16", False, d))
        r.append((("sm2spec", "encrypt"), n, 5, 1, "C16", True, d))
        for pc in (0, 1, 2):
            r.append((("sm9spec", "sign"), n, pc, "C16", d))
    return r


if __name__ == "__main__":
    run("C16", "every secret scalar (private key, signing nonce, encryption nonce) is draw - c for exactly one fresh 32-byte draw of the caller's "
        "generator per attempt, lies in the range the standard demands under the facts of the path, and an attempt is repeated (with the next "
        "draw) exactly when the standard rejects it", 50, jobs)
