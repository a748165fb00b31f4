"""C04: the parser accepts exactly the well-formed patterns, with their
structure. Specification: Tokens.tla, Pattern.tla (parser machine) and
Grammar.tla (declarative grammar, proved equivalent to the machine within
bounds by TLC); binding: trace validation (T_Parse) of three entry points."""
from vlib import *
from checks import parsing
import pgen


def run(ctx):
    ctx.theorem("MC_Grammar", ctx.scale("MC_Grammar", "MC_Grammar_deep"))
    strs = parsing.strings(ctx, ctx.scale(3, 4), ctx.scale(2000, 12000))
    ctx.validate("T_Parse", parsing.bytes_cases(ctx, "verdict", strs), "parse")
    import gencase as G
    ctx.validate("T_Parse", parsing.bytes_cases(ctx, "verdict", sorted({g.pat for g in G.wide(ctx.rng, ctx.thorough)})), "parse (wide patterns)")
    ctx.validate("T_Parse", parsing.long_cases(ctx, "structure"), "parse (long strings)")
    # the other entry points
    b = build("drv")["drv"]
    sel = []
    for s in strs:
        try:
            t = s.decode()
        except UnicodeDecodeError:
            continue
        sel.append([ord(c) for c in t])
    sel = ctx.rng.sample(sel, min(len(sel), ctx.scale(2500, 20000)))
    lines = ["parseu " + " ".join(map(str, c)) for c in sel] + ["parset 0 " + " ".join(map(str, c)) for c in sel]
    items = [{"parse codepoints": c} for c in sel] + [{"parse tokens": c} for c in sel]
    obs = drive(b, lines)
    ok = split_crashes(ctx, "parse", items, obs)
    cases = []
    for i in ok:
        if i < len(sel):
            cases.append(({"kind": "u", "check": parsing.trim("verdict", obs[i]), "cps": sel[i], "o": obs[i]}, items[i]))
        else:
            cases.append(({"kind": "t", "check": parsing.trim("verdict", obs[i]), "limit": 0, "cps": sel[i - len(sel)], "o": obs[i]}, items[i]))
    ctx.validate("T_Parse", cases, "parse (other entry points)")
