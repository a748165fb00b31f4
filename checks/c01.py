"""C01: what is generated is in the language of the pattern. Specification:
Lang.tla, which does not know how generation works; MC_Gen shows that Gen.tla's
machine stays in it for every outcome of every draw (and never lacks a choice);
T_Gen (check "lang") judges what the implementation generated."""
from vlib import *
import gencase as G
import pgen

FIXED = ["[a-z]{8,12}", "([a-z]{2,4}-){3}[0-9]{2}", "(a|b|c){5,9}", "((ab)?c|[x-z]{2}){1,6}", "\\w{w}(-\\w{w}){2,4}", "\\m{m}{1,3}", "(\\w{u}|\\m{w}| ){2,5}",
         "[\\-a-c\\]]{10}", "[漢-滿é-ö😀-😏]{6}", "(a{2,3}b?){3,7}x", "((((a|b)|c)|d)|e){4}", "{3}foo|{0}bar|baz{2}", "abcdefg{3}hij?klmnopqrstuvwxyz{0,2}",
         "[a-z]{33}|[0-9]{65}", "(|a|bb|(c|)){8}", "{0}x|y", "x|{0}y", "{0}x|{0}y|z", "({0}a|b)c", "[ab]?[cd]?[ef]?", "(\\w{w})?x(\\m{m})?", "|", "a||b",
         "{2}a{2}|b{3}", "\\u{10FFFF}[\\u{1F600}-\\u{1F64F}]{2}", "[z]{0,20}", "(){5}a", "(a(b(c(d(e)?)?)?)?)?"]


def big_seg(rng):
    n = rng.choice([31, 32, 33, 40, 64, 65, 80])
    kind = rng.random()
    if kind < .4:
        return "|".join("{%d}%s" % (rng.choice([0, 1, 2, 9]), chr(97 + i % 26) * (1 + i % 3)) for i in range(n)) + "|q"
    if kind < .7:
        return "[" + "".join(chr(0x100 + 3 * i) + "-" + chr(0x101 + 3 * i) if i % 2 else chr(0x100 + 3 * i) for i in range(n)) + "]{3}"
    return "".join(rng.choice(["[a-%s]" % chr(97 + i % 26), "b?", "(c|d)"]) for i in range(n))


def gens(ctx, n):
    rng = ctx.rng
    out = []
    pats = [G.random_pattern(rng, depth=4) for _ in range(n)] + FIXED * ctx.scale(6, 40) + [big_seg(rng) for _ in range(ctx.scale(60, 500))]
    for k, p in enumerate(pats):
        src = rng.choice(["x:%d" % rng.randrange(1, 1 << 63), None])
        modes = [("c", -1, -5), ("u", 600, -5), ("b", 2400, -5), ("c", -1, -5)][:rng.choice([1, 2, 3, 4])]
        out.append(G.Gen(p, b"" if src else G.script(rng), modes, G.WLS, source=src, noent=rng.random() < .2))
    return out


def run(ctx):
    behs = G.behaviours(ctx)
    G.check(ctx, "language", "lang", gens(ctx, ctx.scale(2500, 30000)))
    G.check(ctx, "language (every choice)", "lang", [G.from_behaviour(ctx.rng, b) for b in behs if b[0]["m"] in "cu" and b[0]["lim"] < 0])
    G.check(ctx, "language (optimised build)", "lang", gens(ctx, ctx.scale(300, 3000)), variant="drvrel")
