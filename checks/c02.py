"""C02: choices have exactly the documented probabilities. Specification:
Gen.tla and Draw.tla; MC_Gen checks that the values of every draw are
partitioned among the choices in the documented proportions. Every behaviour
of the model is replayed into the implementation, and T_Gen (check "exact")
requires generation from scripted random bytes to make the choices of the
specification."""
from vlib import *
import gencase as G
import pgen
from checks import c01


def enumerate_group(rng, p, env, bound, n):
    """first draw takes every value below bound"""
    vals = range(bound) if bound <= n else sorted(set([0, 1, bound - 1, bound // 2] + [rng.randrange(bound) for _ in range(n)]))
    return [G.Gen(p, G.encode_draws(rng, [(8, bound, v)], .3) + G.script(rng, 64), [("c", 40, -5)], env) for v in vals]


def run(ctx):
    rng = ctx.rng
    G.replay(ctx, G.behaviours(ctx), ctx.scale(2, 12))
    gs = []
    for _ in range(ctx.scale(1800, 30000)):
        gs.append(G.Gen(G.random_pattern(rng), G.script(rng), [("c", -1, -5)] * rng.choice([1, 1, 2, 3]), G.WLS))
    for p in c01.FIXED * ctx.scale(2, 10) + [c01.big_seg(rng) for _ in range(ctx.scale(40, 300))]:
        gs.append(G.Gen(p, G.script(rng, 600), [("c", -1, -5)], G.WLS))
    # every value of the outermost choice
    for p, bound in (("{3}a|{4}b|c", 8), ("{1000}a|{24}b|c", 1025), ("{255}a|b|{256}c", 512), ("{0}a|{7}b|{0}c|{2}d", 9),
                     ("{4294967295}a|{4294967295}b|c", 2**33 - 1), ("{4294967295}a|b", 2**32), ("{65535}a|b|{65536}c", 131072),
                     ("|".join("{%d}%s" % (i % 4, chr(97 + i % 26)) for i in range(70)), sum(i % 4 for i in range(70)))):
        gs += enumerate_group(rng, p, [], bound, ctx.scale(60, 2000))
    for p, bound in (("[a-c]", 3), ("[a-cx0-9é]", 15), ("[\\u{0}-\\u{10FFFF}]", 0x110000), ("[" + "".join(chr(0x4e00 + 2 * i) for i in range(70)) + "]", 70),
                     ("[a-zA-Z0-9]", 62), ("[aab]", 3), ("[a-cb-d]", 6), ("[" + "\\u{0}-\\u{10FFFF}" * 5 + "]", 5 * 0x110000)):
        vals = range(bound) if bound <= 80 else sorted(set([0, 1, bound - 1, bound // 2, 0xffff, 0x10000] + [rng.randrange(bound) for _ in range(ctx.scale(40, 2000))]))
        for v in vals:
            gs.append(G.Gen(p, G.encode_draws(rng, [(8, 1, 0), (8, bound, v)], .3), [("c", -1, -5)]))
    for p, lo, hi in (("a{0,7}", 0, 7), ("[b-c]{3,5}", 3, 5), ("a{0,300}", 0, 300), ("a{255,257}", 255, 257), ("a{0,4294967295}", 0, 2**32 - 1), ("(a|b){1,65536}", 1, 65536)):
        bound = hi - lo + 1
        vals = range(bound) if bound <= 16 else [0, 1, 2, 30] + [rng.randrange(min(bound, 300)) for _ in range(8)] + [bound - 1, rng.randrange(bound)]
        for v in vals:
            gs.append(G.Gen(p, G.encode_draws(rng, [(8, 1, 0), (8, bound, v)], .3) + G.script(rng, 100), [("c", 310, -5)]))
    big = b"".join(b"word%d\n" % i for i in range(300))
    for v in [0, 1, 254, 255, 256, 257, 298, 299] + [rng.randrange(300) for _ in range(20)]:
        gs.append(G.Gen("\\w{b}", G.encode_draws(rng, [(8, 1, 0), (8, 300, v)], .3), [("c", -1, -5)], [("b", 2, big)]))
    for b in list(range(256)):
        gs.append(G.Gen("a?", G.encode_draws(rng, [(8, 1, 0)]) + bytes([b]), [("c", -1, -5)]))
    G.check(ctx, "choices (wide patterns)", "exact", G.wide(rng, ctx.thorough), batch=60)
    G.check(ctx, "choices", "exact", gs)
    some = rng.sample(gs, ctx.scale(300, 4000))
    G.check(ctx, "choices (optimised build)", "exact", some, variant="drvrel")
