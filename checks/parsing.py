"""Case makers shared by the checks on parsing (C04, C13, C23)."""
import itertools
import pgen
from vlib import *

ALPHA = list("a(){}[]|?\\-1,uw")


def strings(ctx, exhaustive, nrand):
    rng = ctx.rng
    out = []
    for n in range(0, exhaustive + 1):
        out += ["".join(x).encode() for x in itertools.product(ALPHA, repeat=n)]
    for _ in range(nrand):
        out.append(pgen.pattern(rng, 4, [("w", "foo"), ("m", "bär"), ("p", ""), ("w", "a\\}b")], big=True).encode())
    for _ in range(nrand):
        out.append(pgen.mutate(rng, pgen.pattern(rng, 3, [("w", "x"), ("m", "yy")], big=True)).encode())
    # number bounds
    for v in (0, 1, 9, 10, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1, 2**32, 2**32 + 1, 2**33, 10**12, 2**64 - 1, 2**64, 2**64 + 2):
        for f in ("a{%d}", "a{0,%d}", "a{%d,4294967295}", "{%d}a", "({%d}a|b)", "{%d}a|{%d}b" % (v, v) + "%.0s"):
            out.append((f % v).encode())
    # every codepoint that shares its low byte, or its low 7 bits, with syntax
    for ch in "|(){}[]?\\-,^$*+.":
        for base in (0x80, 0x100, 0x400, 0x2000, 0x10000, 0x20000, 0x100000):
            for k in (chr(base + ord(ch)),):
                out += [k.encode(), ("x" + k).encode(), ("[%s]" % k).encode(), ("[a-%s]" % k).encode(), ("(a%sb)" % k).encode()]
    # well-formedness does not depend on where internal buffers end
    for base in (250, 253, 254, 255, 256, 257, 258, 509, 511, 512, 513, 600):
        for tail in ("(a|b)", "[a-c]{2,3}", "\\u{1F600}x", "{3}", ")", "\\", "é", "a{2"):
            for pre in ("a", "é"):
                out.append((pre * base + tail).encode())
                out.append(("(" + pre * (base - 2) + "|" + tail).encode())
    # nesting and long segments
    for d in (5, 20, 33, 50, 64, 65, 100):
        out.append(("(" * d + "a" + ")" * d).encode())
        out.append(("(a|" * d + "b" + ")" * d).encode())
        out.append(("(" * d + "a" + ")" * (d - 1)).encode())
        out.append(("(" * d + "a" + ")" * (d + 1)).encode())
    for d in (31, 32, 33, 63, 64, 65, 96, 97, 130):
        out.append("|".join("{%d}a" % (i % 5) for i in range(d)).encode())
        out.append("".join("[a-%s]" % chr(97 + i % 26) for i in range(d)).encode())
        out.append(("[" + "".join(chr(0x100 + i) for i in range(d)) + "]").encode())
        out.append(("\\w{" + "n" * d + "}").encode())
        out.append(("\\w{" + "漢" * d + "}").encode())
    for pos in range(0, 12):
        out.append(b"a" * pos + "b{2}c?".encode())
    # encoding errors
    for _ in range(nrand // 4):
        s = pgen.pattern(rng, 2).encode()
        k = rng.randint(0, len(s))
        out.append(s[:k] + pgen.badutf8(rng) + s[k:])
    for pre in (0, 1, 254, 255, 256, 300):
        for b in (b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80"):
            out += ["é".encode() * pre + b, b"a" * pre + b + b"z", b"a" * pre + b")" + b]
    for n in ("d800", "dfff", "110000", "FFFFFF", "10FFFF", "0", "", "0000041", "g", "00e9", "{", "1 "):
        out += [("\\u{%s}" % n).encode(), ("x\\u{%s}y" % n).encode(), ("[\\u{%s}]" % n).encode(), ("\\w{\\u{%s}}" % n).encode()]
    seen, res = set(), []
    for s in out:
        if b"\0" not in s and s not in seen:
            seen.add(s)
            res.append(s)
    return res


def jdepth(o):
    """Nesting of a JSON value (iteratively; patterns may be nested deeply)."""
    d, level = 0, [o]
    while level:
        d += 1
        nxt = []
        for x in level:
            if isinstance(x, dict):
                nxt += [v for v in x.values() if isinstance(v, (dict, list))]
            else:
                nxt += [v for v in x if isinstance(v, (dict, list))]
        level = nxt
    return d


def trim(check, o):
    """The JSON reader of TLC's modules nests to 255 levels: of patterns nested
    deeper only the verdict is compared."""
    if jdepth(o) <= 240:
        return check
    o["ast"] = {}
    return "accept"


def runs(seq):
    """A sequence as runs of equal elements."""
    out = []
    for x in seq:
        if out and out[-1]["x"] == x:
            out[-1]["n"] += 1
        else:
            out.append({"n": 1, "x": x})
    return out


def run_segs(segs):
    return runs([{"m": s["m"], "items": runs([run_item(i) for i in s["items"]])} for s in segs])


def run_item(it):
    return dict(it, ranges=runs(it["ranges"]), name=runs(it["name"]), segs=run_segs(it["segs"]))


def long_cases(ctx, check):
    """Strings of tens or hundreds of thousands of characters: parts of them,
    repeated (T_Parse, kind "n")."""
    rng = ctx.rng
    P = lambda *ps: [(p.encode() if isinstance(p, str) else p, a, b) for p, a, b in ps]
    forms = []   # (parts, does the structure stay shallow?)
    units = ["a", "é", "😀", "[b-dé]", "\\|", "\\n", "\\u{1F600}", "x|", "{3}y|", "(p|q)", "z{2,3}", "z?", "\\w{foo}", "(ab){2}", "()w|", "{0}k|"]
    ends = ["", "z", "é)", "[b-a]", "{2", "\\", "\\q", "\\u{g}", "(", "{4294967296}", b"\xff", b"\xe2\x82"]
    for u in units:
        for e in ([""] + rng.sample(ends[1:], 1) if not ctx.thorough and check == "structure" else rng.sample(ends, ctx.scale(3, 8))):
            forms.append((P((u, 1, 0), (e, 0, 1)) if e else P((u, 1, 0)), True))
    for e in ends:   # something before, and something long after
        forms.append((P(("({2}é|b)c", 0, 1), (rng.choice(units[:8]), 1, 0), (e or "z", 0, 1), ("a", 1, 0)), True))
    # long within one construct
    for pre, u, post in (("[", "b", "]"), ("[", "b-d", "]"), ("[é", "漢", "]q"), ("\\w{", "n", "}"), ("\\w{", "漢", "}"), ("x(", "a|", ")y"), ("x(", "a", ")y"), ("(", "({2}b)", "|c){3}")):
        forms.append((P((pre, 0, 1), (u, 1, 0), (post, 0, 1)), (pre, u) != ("\\w{", "漢")))   # (names are bytes)
        forms.append((P((pre, 0, 1), (u, 1, 0), (post + rng.choice([")", "[", "?)", "\\u"]), 0, 1)), True))
        forms.append((P((pre, 0, 1), (u, 1, 0)), True))
    # deeply nested
    for o, m, c in (("(", "a", ")"), ("(x|", "é", ")"), ("({2}y|", "[ab]", "|z)"), ("é(", "", "){2}"), ("(", "", ")?")):
        for k in (0, -1, 1):
            forms.append((P((o, 1, 0), (m, 0, 1), (c, 1, k)) if m else P((o, 1, 0), (c, 1, k)), False))
    b = build("drv")["drv"]
    cases, lines, items = [], [], []
    for parts, shallow in forms:
        step = max(1, sum(len(u) * a for u, a, _ in parts))
        ns = [rng.choice([65535, 65536, 65537, 66000, 70001, 100003, 131072, 140000])]
        if check == "position":   # where a number of 16 bits for bytes or codepoints would end
            ns.append(-(-65536 // step) + rng.randint(0, 20))
        if step > 12:
            ns = ns[:1]
        for n in ns:
            cases.append({"kind": "n", "check": check if shallow or check == "position" else "accept", "n": n,
                          "parts": [{"u": list(u), "a": a, "b": k} for u, a, k in parts]})
            lines.append("parsen %d %s" % (shallow and check == "structure", " ".join("%s:%d" % (u.hex(), a * n + k) for u, a, k in parts)))
            items.append({"parse": [[u.decode("latin1"), a * n + k] for u, a, k in parts]})
    obs = drive(b, lines)
    ok = split_crashes(ctx, "parse", items, obs)
    for i in ok:
        if obs[i]["ast"]:
            obs[i]["ast"] = {"segs": run_segs(obs[i]["ast"]["segs"]), "sum": obs[i]["ast"]["sum"]}
    return [(dict(cases[i], o=obs[i]), items[i]) for i in ok]


def bytes_cases(ctx, check, strs):
    b = build("drv")["drv"]
    obs = drive(b, ["parse " + hx(s) for s in strs])
    items = [{"parse": s.decode("latin1")} for s in strs]
    ok = split_crashes(ctx, "parse", items, obs)
    return [({"kind": "b", "check": trim(check, obs[i]), "bytes": list(strs[i]), "o": obs[i]}, items[i]) for i in ok]
