"""C06: the tokenizer. Specification Tokens.tla, theorems MC_Tokens (tokens
tile the input and agree with a declarative reading), trace validation T_Tok."""
import itertools
from vlib import *

HEX = "0123456789abcdefABCDEF"


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_Tokens", ctx.scale("MC_Tokens", "MC_Tokens_deep"))
    b = build("drv")["drv"]
    strs = []
    al = "\\u{}1Fgné"
    for n in range(0, ctx.scale(4, 5) + 1):
        strs += ["".join(x) for x in itertools.product(al, repeat=n)]
    for cp in list(range(0, 0x250)) + [0x2028, 0x2070, 0x2100 + 110, 0x10000 + 117, 0x1F600, 0x10FFFF]:
        strs += [chr(cp), "\\" + chr(cp), "a\\" + chr(cp) + "b", "\\u" + chr(cp), "\\u{" + chr(cp), "\\u{4" + chr(cp) + "}",
                 "\\u{" + "0" * 5 + chr(cp) + "}z"]
    for n in range(0, 10):
        for _ in range(ctx.scale(40, 400)):
            d = "".join(rng.choice(HEX) for _ in range(n))
            strs += ["\\u{" + d + "}x\\n", "é\\\\\\u{" + d + "}"]
    for v in (0, 1, 0x7f, 0x80, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0x200000, 0x40ffff, 0x800000, 0xffffff):
        for f in ("%x", "%X", "%06x", "%05X"):
            strs += ["\\u{" + f % v + "}", "\\u{" + f % v + "}\\u{41}"]
    for _ in range(ctx.scale(2500, 30000)):
        strs.append("".join(rng.choice(["\\", "\\", "\\u{", "\\u", "}", "{", "a", "7", "F", "n", "\\n", "é", "漢", "😀", "\\u{1F600}", "-", "]"])
                            for _ in range(rng.randint(1, 14))))
    cases, lines, items = [], [], []
    for s in dict.fromkeys(strs):
        cps = [ord(c) for c in s]
        w = [len(c.encode("utf8", "surrogatepass")) for c in s]
        if rng.random() < .1:
            w = [rng.choice([0, 1, 2, 3, 4]) for _ in w]
        lines.append("tok " + " ".join("%d:%d" % x for x in zip(cps, w)))
        cases.append({"cps": cps, "w": w})
        items.append({"tokenize": s, "widths": w})
    obs = drive(b, lines)
    ok = split_crashes(ctx, "tokenize", items, obs)
    ctx.validate("T_Tok", [(dict(cases[i], o=obs[i]), items[i]) for i in ok], "tokenize")
