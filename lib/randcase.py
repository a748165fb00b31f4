"""Cases for T_Rand: operations on randomness handles."""
from vlib import *


def opstr(o):
    t = o["t"]
    return {"r": lambda: "r%d" % o["n"], "u": lambda: str(o["w"]), "m": lambda: "m%d:%d" % (o["w"], unbig(o["b"])),
            "b": lambda: "b", "R": lambda: "R", "s": lambda: "s%d" % unbig(o["p"])}[t]()


R = lambda n: {"t": "r", "n": n}
U = lambda w: {"t": "u", "w": w}
M = lambda w, b: {"t": "m", "w": w, "b": big(b)}
BOOL = {"t": "b"}
RELOAD = {"t": "R"}
SEEK = lambda p: {"t": "s", "p": big(p)}


def line(source, ops):
    return "rand %s %s" % (source, " ".join(map(opstr, ops)))


def item(source, ops):
    return {"source": source if len(source) < 300 else source[:300] + "...", "ops": " ".join(map(opstr, ops))[:3000]}


def script(ctx, what, cases, variant="drv"):
    """cases: (bytes, ops) on a scripted source, judged by Draw.tla."""
    b = build(variant)[variant]
    obs = drive(b, [line("s:" + hx(s), ops) for s, ops in cases])
    its = [item("s:" + hx(s), ops) for s, ops in cases]
    ok = split_crashes(ctx, what, its, obs)
    return ctx.validate("T_Rand", [({"check": "draw", "src": list(cases[i][0]), "ops": cases[i][1], "o": obs[i]}, its[i]) for i in ok], what)


def descs(ctx, what, cases, variant="drv"):
    """cases: (description bytes, ops, file content or None)."""
    b = build(variant)[variant]
    obs = drive(b, [line("d:" + hx(d), ops) for d, ops, _ in cases])
    its = [item("d:" + d.decode("latin1"), ops) for d, ops, _ in cases]
    ok = split_crashes(ctx, what, its, obs)
    return ctx.validate("T_Rand", [({"check": "desc", "desc": list(cases[i][0]), "ops": cases[i][1], "src": list(cases[i][2] or b""),
                                     "exists": 0 if cases[i][2] is None else 1, "o": obs[i]}, its[i]) for i in ok], what)


def bounds(rng, w):
    top = (1 << (8 * w)) - 1
    r = rng.random()
    if r < .3:
        return rng.randint(1, min(top, 300))
    if r < .6:
        k = rng.randint(0, 8 * w - 1)
        return max(1, min(top, (1 << k) + rng.choice((-1, 0, 1))))
    if r < .7:
        return top - rng.randrange(3)
    return rng.randint(1, 1 << rng.randint(1, 8 * w)) & top or 1
