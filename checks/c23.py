"""C23: positions of parse errors. Specification: the parser machine of
Pattern.tla, whose first rejecting token is minimal by construction (MC_Errors
checks it against the grammar); trace validation T_Parse, check "position"."""
from vlib import *
from checks import parsing
import pgen


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_Errors", ctx.scale("MC_Errors", "MC_Errors_deep"))
    strs = parsing.strings(ctx, ctx.scale(3, 4), ctx.scale(1500, 8000))
    errs = [b")", b"[", b"[b-]", b"[b-a]", b"(", b"a{2", b"a{b}", b"a{3,2}", b"?", b"\\", b"\\q", b"\\u", b"\\u{", b"\\u{g}", b"\\u{1234567}",
            b"\\u{110000}", b"\\w", b"\\w{", b"\\wx", b"a{4294967296}", b"{x", b"\xff", b"\xe2\x82", b"\xed\xa0\x80", b"\xc3\x28"]
    pres = ["", "a", "é", "漢", "😀", "(a|", "[é-ö]", "\\u{1F600}", "\\n", "({2}é|\\w{foo}", "a{2,3}?"]
    more = []
    for e in errs:
        for p in pres:
            for tail in (b"", b"x", "é".encode(), b")"):
                more.append(p.encode() + e + tail)
        for n in (1, 2, 10, 60, 250, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513):
            for u in ("a", "é", "😀", "\\n", "\\u{e9}"):
                if n > 60 and rng.random() < .85 and not ctx.thorough:
                    continue
                more.append((u * n).encode() + e + rng.choice([b"", b"z", "é)".encode(), "a".encode() * 300 + b")"]))
    seen = set(strs)
    strs += [m for m in dict.fromkeys(more) if m not in seen]
    ctx.validate("T_Parse", parsing.bytes_cases(ctx, "position", strs), "position")
    ctx.validate("T_Parse", parsing.long_cases(ctx, "position"), "position (long strings)")
