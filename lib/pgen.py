"""Input generators: pattern strings, mutations, byte strings. They only make
inputs; what the inputs mean is decided by the specification."""

META = "|(){}[]?\\-,"


def lit(rng, uni=0.15):
    if rng.random() < uni:
        return rng.choice("äßλ→€漢字😀\u0301\u00a0\U0010ffff\u07ff\u0800\uffff\U00010000\u017b\u047c\u0133\U0001007c")
    return rng.choice("abcxyzABZ019 _-,.:;/!\"'#%&*+<=>@^`~$]}"[:-2])


def setstr(rng, uni=0.1):
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 4])
    s = ""
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            a, b = sorted([rng.choice("abcdwxyzABYZ0123489"), rng.choice("abcdwxyzABYZ0123489")])
            s += a + "-" + b
        elif r < 0.55:
            s += rng.choice(["\\-", "\\]", "\\n", "\\\\", "\\u{e4}", "\\u{1F600}-\\u{1F64F}", "(", ")", "{", "}", "|", "?", ",", "["])
        else:
            s += rng.choice("abcxyz019_.:") if rng.random() > uni else rng.choice("äλ漢😀")
    return "[" + s + "]"


def mods(rng, big=False):
    s = ""
    while rng.random() < 0.35:
        r = rng.random()
        if r < 0.35:
            s += "?"
        elif r < 0.65:
            s += "{%d}" % rng.choice([0, 1, 2, 3, 4])
        elif r < 0.9:
            a = rng.choice([0, 0, 1, 2])
            s += "{%d,%d}" % (a, a + rng.choice([0, 1, 2, 3]))
        elif r < 0.95:
            s += rng.choice(["{}", "{,2}", "{,}", "{00}", "{01,003}"])
        elif big:
            s += rng.choice(["{4294967295}", "{0,4294967295}", "{65536}", "{1000000,1000001}"])
    return s


def item(rng, depth, words=(), big=False, eps=True):
    r = rng.random()
    if depth > 0 and r < 0.25:
        return "(" + alts(rng, depth - 1, words, big, eps) + ")" + mods(rng, big)
    if r < 0.5:
        return setstr(rng) + mods(rng, big)
    if r < 0.56 and words:
        k, n = rng.choice(words)
        return "\\%s{%s}" % (k, n) + mods(rng, big)
    if r < 0.62:
        return rng.choice(["\\n", "\\t", "\\\\", "\\(", "\\)", "\\|", "\\[", "\\]", "\\{", "\\}", "\\u{41}", "\\u{20aC}",
                           "\\u{10FFFF}", "\\u{00e9}", "\\a", "\\b", "\\e", "\\f", "\\r", "\\v"]) + mods(rng, big)
    return "".join(lit(rng) for _ in range(rng.choice([1, 1, 2, 3, 5, 7, 8, 9]))) + mods(rng, big)


def seg(rng, depth, words=(), big=False, eps=True):
    s = ""
    if rng.random() < 0.15:
        s += "{%d}" % rng.choice([0, 1, 2, 3, 5, 7])
        if rng.random() < 0.1:
            s += "{%d}" % rng.choice([0, 1, 2])
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3]) if eps else rng.choice([1, 1, 2, 3])):
        s += item(rng, depth, words, big, eps)
    return s


def alts(rng, depth, words=(), big=False, eps=True):
    n = rng.choice([1, 1, 1, 2, 2, 3, 4])
    return "|".join(seg(rng, depth, words, big, eps) for _ in range(n))


def pattern(rng, depth=3, words=(), big=False):
    return alts(rng, rng.randint(0, depth), words, big)


def mutate(rng, s):
    cs = list(s)
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = rng.randint(0, len(cs))
        r = rng.random()
        if r < 0.4:
            cs.insert(p, rng.choice(META + "0129auwmpFé😀\n"))
        elif r < 0.7 and cs:
            del cs[min(p, len(cs) - 1)]
        elif r < 0.85 and cs:
            cs[min(p, len(cs) - 1)] = rng.choice(META + "019auwmpξ")
        elif cs:
            q = rng.randint(0, len(cs))
            a, b = sorted((p, q))
            cs[p:p] = cs[a:b][:20]
    return "".join(c for c in cs if c != "\0")


def badutf8(rng):
    return rng.choice([b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80",
                       b"\xed\xbf\xbf", b"\xe2\x82", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf0\x9f\x98", b"\xf5\x80\x80\x80",
                       b"\xff", b"\xfe", b"\xe2\x28\xa1", b"\xf8\x88\x80\x80\x80"])
