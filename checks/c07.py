"""C07: every byte of the source is delivered at most once. Specification:
Rand.tla; MC_Rand shows that the buffered handle refines the abstract one (each
position at most once, small reads in order, nothing lost). T_Rand (check
"lanes") runs the same operations on three sources whose bytes are the low, middle
and high byte of their position, so that each delivered byte tells where it came
from, and requires the behaviour of the abstract handle."""
from vlib import *
from randcase import *


def sequences(ctx):
    rng = ctx.rng
    S = []
    # all pairs of sizes around the boundaries, from every kind of position
    edge = [0, 1, 1023, 1024, 1025, 2048, 2049] if not ctx.thorough else [0, 1, 2, 3, 1022, 1023, 1024, 1025, 2047, 2048, 2049]
    for a in edge:
        for b in edge:
            S.append([R(a), R(b), R(5), R(1024), R(3)])
    for left in list(range(0, 12)) + [63, 64, 65, 511, 512, 513]:
        for w in (1, 2, 4, 8):
            S.append([R(1024 - left), U(w), U(w), R(7)])
        for n in (left, left + 1, max(0, left - 1), left + 1024, left + 1023, 1024, 1025, 3000):
            S.append([R(1024 - left), R(n), R(1), R(4)])
    for n in (1, 3, 7, 8, 100, 341, 1000):
        S.append([R(n)] * min(400, 2600 // n + 2))
    for _ in range(ctx.scale(160, 9000)):
        ops, tot = [], 0
        while len(ops) < rng.randint(2, 40) and tot < 6000:
            r = rng.random()
            if r < .35:
                n = rng.randint(0, 64)
            elif r < .6:
                n = rng.randint(0, 1024)
            elif r < .75:
                n = rng.choice((1023, 1024, 1025, 512, 1000))
            elif r < .85:
                n = rng.randint(1025, 3000)
            else:
                w = rng.choice((1, 2, 4, 8))
                ops.append(U(w))
                tot += w
                continue
            if rng.random() < .03:
                ops += [RELOAD, R(rng.randint(1, 1024))]
            ops.append(R(n))
            tot += n
        S.append(ops)
    return S


def fix(obs, ops):
    # integers are observed without leading zeroes
    for k, o in enumerate(ops):
        if o["t"] == "u":
            obs["r"][k] = obs["r"][k] + [0] * (o["w"] - len(obs["r"][k]))
    return obs


def run(ctx):
    ctx.theorem("MC_Rand")
    ctx.theorem("MC_Rand", "MC_Rand_lazy")
    if ctx.thorough:
        ctx.theorem("MC_Rand", "MC_Rand_deep")
    b = build("drv", "drvrel")
    S = sequences(ctx)
    for v, sel in (("drv", S), ("drvrel", ctx.rng.sample(S, min(len(S), ctx.scale(30, 1500))))):
        obs = drive(b[v], [line("c:%d" % l, ops) for ops in sel for l in (0, 1, 2)])
        its = [item("c:", ops) for ops in sel for _ in (0, 1, 2)]
        ok = set(split_crashes(ctx, "lanes", its, obs))
        cases = []
        for k, ops in enumerate(sel):
            if all(3 * k + l in ok for l in (0, 1, 2)):
                cases.append(({"check": "lanes", "ops": ops, "o": [fix(obs[3 * k + l], ops) for l in (0, 1, 2)]}, its[3 * k]))
        ctx.validate("T_Rand", cases, "lanes" if v == "drv" else "lanes (optimised build)", batch=4000)
