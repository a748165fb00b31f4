"""C11: a failing source stops the process. Specification: Rand.tla with a source
whose reads from some number on come up short. T_Rand (check "fault") requires that
everything delivered before is right, that nothing is returned that needed the
failed read, and that the process stops, in debugging and optimised builds."""
import tempfile
from vlib import *
from randcase import *
from checks import clicase


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_Rand")
    b = build("drv", "drvrel")
    cases = []
    lens = lambda n: [0, 1, n // 2, n - 1]
    for fail_at in (0, 1, 2, 3):
        for fl in (0, 1, 2, 511, 512, 1000, 1022, 1023):
            cases.append((fail_at, fl, [R(1000), R(23), R(1), R(1), R(1023), U(8), U(4), M(8, 10), BOOL, R(2000), U(1)]))
    for left in range(0, 10):
        for o in (U(1), U(2), U(4), U(8), M(1, 200), M(2, 700), M(4, 70000), M(8, 10), BOOL, R(left), R(left + 1), R(1024), R(1025)):
            for fail_at in (1, 2):
                cases.append((fail_at, rng.choice((0, 1, 7, 100, 1023)), [R(1024 - left), o, R(2), R(1020), R(5)]))
    # large direct reads
    for n in (1025, 1030, 2048, 5000):
        for fail_at in (0, 1, 2, 3):
            for fl in lens(n):
                cases.append((fail_at, fl, [R(3), R(n), R(4), R(n), R(1018)]))
    for _ in range(ctx.scale(250, 6000)):
        ops = [rng.choice([R(rng.randint(0, 1024)), R(rng.randint(900, 1100)), R(rng.randint(1, 40)), U(rng.choice((1, 2, 4, 8))), M(8, bounds(rng, 8)), BOOL]) for _ in range(rng.randint(1, 9))]
        cases.append((rng.randint(0, 5), rng.choice((0, 1, rng.randint(0, 1023), 1023)), ops))
    cases = [(f, l, ops, bytes(rng.randrange(256) for _ in range(rng.choice((0, 700, 3000))))) for f, l, ops in cases]
    for v in ("drv", "drvrel"):
        sel = cases if v == "drv" else rng.sample(cases, min(len(cases), ctx.scale(250, 4000)))
        obs = drive(b[v], ["fault %d %d %s %s" % (f, l, hx(s), " ".join(map(opstr, ops))) for f, l, ops, s in sel])
        its = [dict(item("script", ops), fail_at=f, delivers=l) for f, l, ops, s in sel]
        ok = split_crashes(ctx, "fault", its, obs)
        ctx.validate("T_Rand", [({"check": "fault", "kind": "script", "fail_at": sel[i][0], "ops": sel[i][2], "src": list(sel[i][3]), "o": obs[i]}, its[i]) for i in ok],
                     "fault" if v == "drv" else "fault (optimised build)")
    # the system's source: getrandom answered from a script until a number of bytes
    sys = []
    for budget in (0, 1, 255, 256, 1023, 1024, 1025, 1300, 2047, 2048, 3071, 3072, 5000):
        for how in "nsr":
            sys.append((budget, how, [U(8), R(1000), R(16), U(4), BOOL, R(1024), R(2000), U(8)]))
    for n in (1025, 1300, 4000):
        for d in (-1, 0, 1, n - 1024):
            sys.append((1024 + n + d, rng.choice("nsr"), [R(n), R(7), R(n)]))
    for _ in range(ctx.scale(100, 2000)):
        ops = [rng.choice([R(rng.randint(0, 1024)), R(rng.randint(1000, 3000)), U(rng.choice((1, 2, 4, 8))), M(8, bounds(rng, 8)), BOOL]) for _ in range(rng.randint(1, 9))]
        sys.append((rng.randint(0, 8000), rng.choice("nsr"), ops))
    sys = [(f, h, ops, bytes(rng.randrange(256) for _ in range(rng.choice((300, 3000, 9000))))) for f, h, ops in sys]
    for v in ("drv", "drvrel"):
        obs = drive(b[v], ["sysfault %d %s %s %s" % (f, h, hx(s), " ".join(map(opstr, ops))) for f, h, ops, s in sys])
        its = [dict(item("system", ops), budget=f, opened=h) for f, h, ops, s in sys]
        ok = split_crashes(ctx, "system", its, obs)
        ctx.validate("T_Rand", [({"check": "fault", "kind": "system", "budget": sys[i][0], "ops": sys[i][2], "src": list(sys[i][3]), "o": obs[i]}, its[i]) for i in ok],
                     "system" if v == "drv" else "system (optimised build)")
    clicase.short_sources(ctx)
