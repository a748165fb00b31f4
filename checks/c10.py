"""C10: derivation from a master passphrase. Specification: Argon2.tla and
Blake2b.tla, written from RFC 9106 and RFC 7693 on machine words in 16-bit limbs and
validated in MC_Argon2 against the published answers (which use every input); their
inputs are shown to be told apart there. T_Rand (check "desc") requires the stream of
a chacha20-argon2 description to be the specified one, T_Cli the output of the
program for a passphrase, domain, token and pattern."""
from vlib import *
from randcase import *
from checks import clicase


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_Argon2")
    cases = []
    add = lambda p, ops=None: cases.append((b"chacha20-argon2:" + p, ops or [R(40), U(8)], None))
    # the same text in different fields, empty fields, boundaries of fields
    for p in [b"", b"a", b"ab:", b"a:b", b":ab", b"::ab", b"ab", b"a::b", b":a:b", b"a:b:c", b"a:b:c:"]:
        add(p)
    x = lambda n: bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyzABC0123456789!$/ ") for _ in range(n))
    add(x(127))
    add(x(64) + b":" + x(127))
    add(x(3) + b":" + x(2) + b":" + x(127), [R(64), R(1000)])
    # fields that end where a block of the inner hash does: after 28 + P, 43 + P + D
    # and 47 + P + D + T bytes
    for a, b, c in [(100, 3, 4), (60, 25, 9), (20, 30, 31), (99, 1, 0), (101, 0, 0), (100, 100, 9), (81, 0, 0), (127, 82, 0)]:
        add(x(a) + b":" + x(b) + b":" + x(c))
    add("pässwörd:dömain.example:tøken".encode())
    for _ in range(ctx.scale(3, 120)):
        add(b":".join(x(rng.choice((0, 1, 7, 8, 31, 32, 63, 64, 65, 100))) for _ in range(rng.choice((2, 3, 3)))))
    # refused
    bad = [x(128), x(200), x(5) + b":" + x(128), b"a:b:" + x(128), b"a:b:c:d", b"a:b:c::", x(1000), b"a:b:" + x(500)]
    for p in bad:
        cases.append((b"chacha20-argon2:" + p, [], None))
    descs(ctx, "derived stream", cases)
    descs(ctx, "derived stream (optimised build)", cases[:2] + cases[-len(bad):] + rng.sample(cases, ctx.scale(4, 30)), "drvrel")
    derive(ctx)
    clicase.master(ctx)


def derive(ctx):
    """other variants and parameters, which programs can choose"""
    rng = ctx.rng
    x = lambda n: bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyzABC0123456789:!$/ \xc3\xa9") for _ in range(n))
    cs = [(2, 8, 1, 1), (0, 8, 2, 1), (1, 8, 2, 1), (2, 11, 1, 1), (2, 16, 2, 2), (1, 19, 1, 2), (0, 24, 1, 3), (2, 27, 1, 3), (2, 32, 1, 4), (2, 12, 3, 1)]
    cs += [(1, 4 * 131, 1, 1), (2, 4 * 129, 1, 1)] * ctx.scale(0, 1)
    for _ in range(ctx.scale(0, 60)):
        p = rng.randint(1, 5)
        cs.append((rng.randrange(3), rng.randint(8 * p, 8 * p + 30), rng.randint(1, 4), p))
    cases = []
    for k, c in enumerate(cs):
        f = [x(rng.choice((0, 1, 8, 63, 64, 127, 128, 129, 300))), None if rng.random() < .3 else x(rng.choice((0, 3, 64, 200))), None if rng.random() < .3 else x(rng.choice((0, 3, 64, 400)))]
        cases.append((c, f, [R(40), U(8)]))
    for v in ("drv", "drvrel"):
        b = build(v)[v]
        if v == "drvrel":
            cases = rng.sample(cases, ctx.scale(3, 40))
        words = ["a:%d,%d,%d,%d," % c + ",".join("!" if y is None else hx(y) for y in f) for c, f, _ in cases]
        obs = drive(b, [line(w, ops) for w, (_, _, ops) in zip(words, cases)])
        its = [item(w, ops) for w, (_, _, ops) in zip(words, cases)]
        ok = split_crashes(ctx, "derivation with parameters", its, obs)
        recs = []
        for i in ok:
            (y, m, t, p), f, ops = cases[i]
            recs.append(({"check": "derive", "cfg": {"y": y, "blocks": m, "passes": t, "lanes": p, "pass": list(f[0]), "domain": list(f[1] or b""), "token": list(f[2] or b"")},
                          "ops": ops, "o": obs[i]}, its[i]))
        ctx.validate("T_Rand", recs, "derivation with parameters")
