"""C08: bounded random numbers. Specification: Draw.tla. MC_Draw counts, for
every bound of one byte and selected bounds of two, how many candidates give each
value. T_Rand (check "draw") requires the implementation's draws of every width to
be those of Draw.tla: all 255 bounds with all 256 bytes, and around the bounds and
masks of the wider ones."""
from vlib import *
from randcase import *


def smear(n):
    return (1 << n.bit_length()) - 1


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_Draw", "MC_Draw_deep" if ctx.thorough else None)
    cases = []
    # every byte below every bound; booleans and plain integers of all bytes
    for bound in range(1, 256):
        m = smear(bound)
        acc = sum(1 for v in range(256) if v & m < bound)
        cases.append((bytes(range(256)), [M(1, bound)] * acc))
    cases.append((bytes(range(256)), [BOOL] * 256))
    for w in (1, 2, 4, 8):
        cases.append((bytes(rng.randrange(256) for _ in range(64 * w)), [U(w)] * 64))
        for k in range(w):  # each byte on its own
            cases.append((b"".join(bytes(j if j == 0 else 0 for j in range(0)) + (v << (8 * k)).to_bytes(w, "little") for v in (1, 127, 128, 255)), [U(w)] * 4))
    # candidates around bound and mask, with anything above the mask
    for w in (2, 4, 8):
        fixed = sorted({1, 2, 3, 255, 256, 257, 65535, (1 << (8 * w)) - 1, (1 << (8 * w - 1)), (1 << (8 * w - 1)) + 1, (1 << (8 * w - 1)) - 1}
                       | {(1 << k) + d for k in range(1, 8 * w) for d in (-1, 0, 1)})
        fixed = [x for x in fixed if 0 < x < 1 << (8 * w)]
        for bound in fixed + [bounds(rng, w) for _ in range(ctx.scale(150, 4000))]:
            m, top = smear(bound), (1 << (8 * w)) - 1
            cand = [bound, m, bound - 1, bound + 1, 0, rng.getrandbits(8 * w), rng.getrandbits(8 * w), m ^ 1, bound // 2]
            rng.shuffle(cand)
            s = b"".join((((c & m) | (rng.getrandbits(8 * w) & ~m & top)) & top).to_bytes(w, "little") for c in cand)
            n = sum(1 for c in cand if c & m < bound)
            cases.append((s, [M(w, bound)] * n + [U(8)]))
    # long runs of candidates that are too large
    for w in (1, 2, 4, 8):
        for n in (5, 17, 40, 100, 130, 300, 1000):
            bound = rng.choice((5, 3, 9, 129)) if rng.random() < .7 else bounds(rng, w)
            m = smear(bound)
            if bound > m // 2 + 1 and bound < m + 1 and n * w < 4200:
                bad = lambda: rng.choice((m, bound, rng.randint(bound, m)))
                v = rng.randrange(bound)
                cases.append((b"".join(x.to_bytes(w, "little") for x in [bad() for _ in range(n)] + [v]), [M(w, bound), U(1)]))
    # mixed widths, across refills
    for _ in range(ctx.scale(300, 6000)):
        ops = []
        if rng.random() < .5:
            ops.append(R(1024 - rng.randrange(20)))
        for _ in range(rng.randint(1, 12)):
            w = rng.choice((1, 2, 4, 8))
            ops.append(rng.choice([BOOL, U(w), M(w, bounds(rng, w)), M(w, bounds(rng, w)), R(rng.randrange(9))]))
        cases.append((bytes(rng.randrange(256) for _ in range(1024 + 300)), ops))
    # two bytes exhaustively
    for bound in [257, 40000] + [rng.randint(1, 65535) for _ in range(ctx.scale(0, 10))]:
        m = smear(bound)
        step = rng.randrange(64)
        for lo in range(0, 65536, ctx.scale(8192, 4096)):
            vs = list(range(lo, lo + ctx.scale(512, 4096)))
            cases.append((b"".join(v.to_bytes(2, "little") for v in vs), [M(2, bound)] * sum(1 for v in vs if v & m < bound)))
    script(ctx, "draw", cases)
    script(ctx, "draw (optimised build)", rng.sample(cases, ctx.scale(150, 2000)), "drvrel")
