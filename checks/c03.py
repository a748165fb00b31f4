"""C03: the reported entropy is the reciprocal of the probability of exactly
the choices made. MC_Gen proves it of Gen.tla (probabilities are counted over
the values of each draw); T_Gen (check "entropy") compares the number that the
implementation reports, as an exact fraction up to the rounding of doubles, in
every output form; T_Cli compares the logarithms that the program prints."""
from vlib import *
import gencase as G
from checks import c01, clicase


def run(ctx):
    rng = ctx.rng
    behs = G.behaviours(ctx)
    gs = []
    for b in behs:
        g = G.from_behaviour(rng, b)
        gs.append(g)
        if b[0]["lim"] < 0:
            # the same choices in every output form
            src = g.src
            for m in (("u", 100, -5), ("b", 400, -5), ("j", 700, -5)):
                if rng.random() < ctx.scale(.4, 1):
                    gs.append(G.Gen(g.pat, src, [m], g.env, g.limit))
    for _ in range(ctx.scale(1500, 25000)):
        ms = [("c", -1, -5), ("u", 600, -5), ("b", 2400, -5), ("j", 3600, -5), ("u", 3, -5), ("b", 5, -5), ("c", 2, -5)]
        gs.append(G.Gen(G.random_pattern(rng), G.script(rng), [rng.choice(ms) for _ in range(rng.choice([1, 2, 3]))], G.WLS))
    for p in c01.FIXED * ctx.scale(2, 10) + [c01.big_seg(rng) for _ in range(ctx.scale(30, 300))] + \
            ["[a-z]{100}", "[a-z]{200}", "(a|b){500}", "[\\u{0}-\\u{10FFFF}]{40}", "[a-z]{0,4294967295}x", "{4294967295}a|{4294967295}b", "(a?){60}", "\\w{w}{30}", "\\m{m}{20}",
             "a{0,4294967295}", "(a|{0}b|{3}c){200}"]:
        gs.append(G.Gen(p, G.script(rng, 700), [("u", 600, -5)], G.WLS))
    G.check(ctx, "entropy (wide patterns)", "entropy", G.wide(rng, ctx.thorough), batch=60)
    G.check(ctx, "entropy", "entropy", gs)
    G.check(ctx, "entropy (optimised build)", "entropy", rng.sample(gs, ctx.scale(200, 3000)), variant="drvrel")
    clicase.entropy(ctx)
    clicase.known(ctx)
