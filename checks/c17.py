from _proto import run, sm2spec


def jobs(ck):
    deep = ck.tier != "quick"
    r = []
    v = lambda f, *a: (("valid", f),) + a
    for n in "ab":
        r += [v("sm2_pub", n, "new"), v("sm2_pub", n, "set"), v("sm2_priv", n, "new"), v("sm2_priv", n, "set"), v("sm9_priv", n, "new"),
              v("sm9_priv", n, "set"), v("sm9_pub", n), v("sm9_user", n), v("plaintext_len", n)]
        for il in (0, 16):
            r.append((("sm2spec", "verify"), n, il, "C17"))
            r.append((("sm2spec", "verify"), n, il, "C17", True))
        for tag in (2, 3, 4, 6, 7):
            r.append((("sm2spec", "decrypt"), n, tag, 5, "C17"))
            r.append((("sm9spec", "verify"), n, tag, 0, 16, 1, "C17"))
            r.append((("sm9spec", "verify"), n, tag, -1, 16, 1, "C17"))
            r.append((("sm9spec", "verify"), n, tag, 1, 16, 1, "C17"))
    for g in "29T":
        for tag in range(0, 256):
            if tag in (2, 3, 4, 6, 7):
                for l in range(0, 138) if deep else (0, 1, 2, 32, 33, 34, 63, 64, 65, 66, 70, 97, 127, 128, 129, 130, 137):
                    r.append(v("decode", g, [tag], [l]))
        rest = [t for t in range(256) if t not in (2, 3, 4, 6, 7)]
        for i in range(0, len(rest), 64):
            r.append(v("decode", g, rest[i:i + 64], (1, 33, 65, 129)))
    for g in "29T":
        r.append(v("encode", g))
    return r


if __name__ == "__main__":
    run("C17", "importing a key, a point or a signature accepts exactly when every validity condition of the standards (tag, length, coordinate "
        "range, curve equation, parity, scalar range) is decided true on the path, and rejects only when one is decided false; all 256 tags and "
        "the enumerated lengths", 150, jobs)
