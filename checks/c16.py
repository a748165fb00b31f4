"""C16: Markov words. Markov.tla defines the statistics; MC_MarkovTable proves
that tables which grow on collisions keep them exactly, whatever the order of
insertions; T_Markov judges, context by context, every value of the draw after
words were added to the real chain, and words generated from files."""
from vlib import *
import gencase as G
from checks import clicase

CPS = [97, 98, 99, 100, 97 + 3, 97 + 7, 97 + 21, 97 + 17, 97 + 21 * 17, 97 + 3 * 7 * 17 * 37, 233, 0x4e2d, 0x1f600, 1, 3, 7, 21, 42, 63, 357, 0x10ffff]


def padded(w, n):
    return [0] * n + list(w) + [0]


def contexts(words, n):
    """{context: total}, to know how many values to draw"""
    r = {}
    for cps, w in words:
        s = padded(cps, n)
        for i in range(len(cps) + 1):
            k = tuple(s[i:i + n])
            r[k] = r.get(k, 0) + w
    return r


def chains(ctx):
    rng = ctx.rng
    r = []
    def word(alpha, n):
        return [rng.choice(alpha) for _ in range(n)]
    for _ in range(ctx.scale(220, 3000)):
        level = rng.choice((1, 1, 2, 2, 2, 3, 4, 5, 7))
        alpha = rng.choice((CPS, CPS[:4], [97, 98], CPS[:10], [97 + 3 * k for k in range(9)], [97 + 21 * k for k in range(7)], list(range(97, 123)), [rng.randint(1, 0x10ffff) for _ in range(12)]))
        ws = [(word(alpha, rng.choice((0, 1, 1, 2, 2, 3, level - 1, level, level + 1, 2 * level, 9))), rng.choice((1, 1, 1, 1, 2, 5, 0))) for _ in range(rng.choice((1, 2, 3, 6, 15)))]
        r.append((level, ws))
    # many continuations in one context: growth of one table
    for n in ctx.scale((8, 40, 90), (8, 18, 40, 90, 170, 340)):
        for step in (1, 3, 7, 21):
            r.append((1, [([97, 200 + step * k], 1) for k in range(n)]))
            cs = [200 + step * k for k in range(n)]
            rng.shuffle(cs)
            r.append((2, [([c, 97], 1) for c in cs]))
    # large weights, in tables that grow and in several words
    for w in ctx.scale((255, 256, 300, 65535, 65536, 70000), (127, 128, 255, 256, 257, 300, 32768, 65535, 65536, 65537, 70000, 131072, 200000)):
        r.append((1, [([97, 98], w)]))
        r.append((1, [([120, 97], w)] + [([120, 97 + 21 * k + rng.randrange(3)], rng.choice((1, 2, 9))) for k in range(1, rng.choice((4, 9, 30)))] + [([120, 97], 1)]))
        r.append((2, [([97 + 3 * k], rng.choice((1, w // 3 + 1))) for k in range(5)] + [([97], w)]))
        r.append((2, [([98], 1)] * 3 + [([98, 99], w // 4)] * 5 + [([98, rng.choice((99, 100, 106, 120))], rng.randint(1, 9)) for _ in range(12)]))
    r.append((1, [([97, 98 + k % 2], 1) for k in range(ctx.scale(300, 700))]))
    r.append((2, [([97] * 300, 1), ([98] * 2, 3)]))
    r.append((20, [([97, 98, 99], 1), ([97] * 30, 2)]))
    return r


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_MarkovTable", ctx.scale("MC_MarkovTable", "MC_MarkovTable_deep"))
    drv = build("drv")["drv"]
    lines, recs, items = [], [], []
    for level, ws in chains(ctx):
        c = contexts(ws, level)
        qs = list(c)
        if len(qs) > 30:
            qs = rng.sample(qs, 30)
        ops = ["a%d:%s" % (w, ".".join(map(str, cps))) for cps, w in ws] + ["q%s:%d" % (".".join(map(str, q)), c[q]) for q in qs]
        lines.append("mk %d %s" % (level, " ".join(ops)))
        recs.append({"kind": "mk", "level": level, "words": [{"cps": cps, "w": w} for cps, w in ws], "queries": [list(q) for q in qs]})
        items.append({"level": level, "words": ws[:40], "queries": qs[:8]})
    for variant, share in (("drv", 1.0), ("drvrel", ctx.scale(.2, .5))):
        sel = [i for i in range(len(lines)) if rng.random() < share]
        obs = drive(build(variant)[variant], [lines[i] for i in sel])
        its = [items[i] for i in sel]
        ok = split_crashes(ctx, "statistics (%s)" % variant, its, obs)
        ctx.validate("T_Markov", [(dict(recs[sel[k]], o=obs[k]), its[k]) for k in ok], "statistics (%s)" % variant)

    # words generated from files
    gs, data = [], []
    fl = [b"only\n", b"ab\nabc\nabcd\n", b"a\nab\nba\nb\n", b"banana\nananas\nnab\n", "äöü\nöä\nüü\n漢字漢\n".encode(), b"a\nb\nc\nd\ne\nf\ng\nh\n" + b"ab\n" * 20, b"aaaa\n" * 3 + b"aaa\n",
          b"", b"\n\n", b"ok\n\xff\n", b"x" * 150 + b"\n" + b"y\n", bytes(range(33, 127)).replace(b"", b"\n")]
    for _ in range(ctx.scale(60, 800)):
        alpha = rng.choice(("ab", "abc", "aäb漢", "abcdefghijklmnop", "adgjmpsv"))
        fl.append("\n".join("".join(rng.choice(alpha) for _ in range(rng.choice((1, 2, 3, 4, 6)))) for _ in range(rng.choice((1, 2, 4, 9, 25)))).encode())
    for f in fl * ctx.scale(3, 8):
        lv = rng.choice((1, 2, 3, 4, 6))
        gs.append(G.Gen("\\m{q}", bytes(rng.randrange(256) for _ in range(1500)), [("c", -1, -5)] * 6, [("q", lv, f)]))
        data.append(f)
    obs = drive(drv, [g.line() for g in gs])
    items = [g.item() for g in gs]
    ok = split_crashes(ctx, "generated words", items, obs)
    for i in ok:
        if obs[i]["parse"]:
            raise Broken("a markov reference is not accepted")
    ctx.validate("T_Markov", [({"kind": "gen", "level": gs[i].env[0][1], "data": list(data[i]), "o": {"g": [{k: x[k] for k in ("ret", "n", "o", "ent")} for x in obs[i]["g"]]}}, items[i]) for i in ok], "generated words")
    # the chain length given on the command line, inside of patterns
    invs = []
    for _ in range(ctx.scale(40, 300)):
        f = rng.choice([x for x in fl if x.strip() and b"\xff" not in x])
        invs.append(clicase.Inv(["-r", "file:rnd"] + rng.choice((["-M", str(rng.choice((1, 2, 3, 5, 9)))], ["--markov=%d" % rng.choice((1, 2, 4))], [])) + ["-w", "q:list.txt"] +
                                rng.choice(([], ["-M", "5"])) + ["-a", "2"] + rng.choice(([], ["-e"])) + [rng.choice(("\\m{q}", "\\m{q}-\\m{q}", "(x|\\m{q}){2}", "\\m{q}\\w{q}"))], {"list.txt": f, **clicase.rnd_file(rng, 4096)}))
    clicase.check(ctx, "chain length on the command line", "all", invs)
