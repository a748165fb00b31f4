"""C13: the depth limit bounds nesting and nothing else. Specification: the
depth of Gen.tla (MC_Gen: never beyond the limit, failure only where the nesting
really exceeds it) and the limit of the parser machine of Pattern.tla."""
from vlib import *
import gencase as G
import pgen
from checks import parsing


def run(ctx):
    rng = ctx.rng
    behs = G.behaviours(ctx)
    G.replay(ctx, [b for b in behs if b[0]["limit"] != 1024], ctx.scale(6, 20))
    gs = []

    def add(p, limit, n=1, m=("c", 400, -5)):
        gs.append(G.Gen(p, G.script(rng, 300), [m] * n, G.WLS, limit))
    for d in (1, 2, 3, 5, 9, 17, 40):
        for k in (d - 2, d - 1, d, d + 1, d + 2):
            if k >= 0:
                add("(" * (d - 1) + "a" + ")" * (d - 1), k)
                add("(x|" * (d - 1) + "a" + ")" * (d - 1), k, 3)
                add("(" * (d - 1) + "[ab]{2}" + "){2}" * min(d - 1, 3) + ")" * max(0, d - 4), k)
    # many groups and repetitions, little nesting
    for p in ("(a)(b)(c)(d)(e)(f)", "(a){50}", "((a)b){20}", "(a|b)(c|(d|e)){9}(f)", "(a)?(b)?(c(d)?)?", "((a)(b)(c)){5}(d)", "(\\w{w})(x)", "(a|(b)){30}",
              "(a)|(b)|((c))", "((x){2}(y){2}){3}z(w)"):
        for limit in range(0, 6):
            add(p, limit, 4)
    for _ in range(ctx.scale(700, 10000)):
        add(pgen.pattern(rng, 5, G.NAMES), rng.randint(0, 6), rng.choice([1, 2, 3]), rng.choice([("c", 400, -5), ("u", 400, -5), ("b", 900, -5), ("j", 900, -5)]))
    # around the default limit, and in the default configuration
    for d in ctx.scale((1022, 1023, 1024), (1000, 1021, 1022, 1023, 1024, 1025, 1100)):
        p = "(" * d + "a" + ")" * d
        gs.append(G.Gen(p, b"", [("c", -1, -5), ("u", 10, -5)], []))
        gs.append(G.Gen(p, b"", [("c", -1, -5)], [], d + 1))
    G.check(ctx, "depth", "bounds", gs)
    # repetition beyond the nesting limit, at the default limit
    gs2 = [G.Gen("(a){300}", b"", [("c", -1, -5)], (), 40), G.Gen("(a|b){200}c", b"", [("u", 2000, -5)], (), 20), G.Gen("(x)" * 200, b"", [("c", -1, -5)], (), 30),
           G.Gen("(a){1030}", b"", [("c", -1, -5)]), G.Gen("((x)?y){1,40}", G.script(rng), [("b", 900, -5)] * 3, (), 3)]
    if ctx.thorough:
        gs2 += [G.Gen("(a|b){1500}c", b"", [("u", 2000, -5)]), G.Gen("(x)" * 1200, b"", [("c", -1, -5)])]
    G.check(ctx, "depth (repetition)", "bounds", gs2)
    # the parser's limit
    b = build("drv")["drv"]
    pats = []
    for d in range(0, 12):
        pats += ["(" * d + "a" + ")" * d, "(" * d + "[a-c]{2}" + ")" * d, "(" * d + "\\w{w}" + ")" * d, "(a|" * d + "b" + ")" * d, "(" * d + "{2}a|b?" + ")" * d,
                 "(" * d + ")" * d + "a", "(a)" * d, "(" * d]
    pats += [pgen.pattern(rng, 5, G.NAMES) for _ in range(ctx.scale(500, 8000))] + [pgen.mutate(rng, pgen.pattern(rng, 4)) for _ in range(ctx.scale(300, 4000))]
    cases, lines, items = [], [], []
    for p in pats:
        cps = [ord(c) for c in p]
        for limit in sorted(rng.sample(range(0, 16), 3)):
            lines.append("parset %d %s" % (limit, " ".join(map(str, cps))))
            items.append({"parse tokens": p, "limit": limit})
            cases.append({"kind": "t", "limit": limit, "cps": cps})
    obs = drive(b, lines)
    ok = split_crashes(ctx, "parse limit", items, obs)
    ctx.validate("T_Parse", [(dict(cases[i], check=parsing.trim("verdict", obs[i]), o=obs[i]), items[i]) for i in ok], "parse limit")
