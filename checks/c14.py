"""C14: JSON output. Specification: Json8.tla, an RFC 8259 reader that knows
nothing of how the output is written. T_Gen (check "json") requires the JSON form
to read back as the plain form from the same random bytes; T_Cli requires the
document that the program prints to be an array of objects with those strings
and, when asked for, numbers."""
from vlib import *
import gencase as G
import pgen
from checks import c01, clicase


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_Json")
    plain, js = [], []

    def add(p, env=G.WLS, src=None, n=1):
        s = G.script(rng, 300) if src is None else src
        plain.append(G.Gen(p, s, [("c", 500, -5)] * n, env))
        js.append(G.Gen(p, s, [("j", 4000, -5)] * n, env))
    for cp in list(range(0, 0x100)) + [0x7ff, 0x800, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xd7ff, 0xe000, 0xd800, 0xdfff]:
        add("a\\u{%x}b" % cp)
        add("\\u{%x}" % cp)
        add("\\u{%x}0" % cp)
    for _ in range(ctx.scale(1500, 20000)):
        add(G.random_pattern(rng), n=rng.choice([1, 2]))
    for _ in range(ctx.scale(400, 4000)):
        add("[\\u{0}-\\u{ff}]{%d}" % rng.randint(1, 12))
        add("[\\u{0}-\\u{23}\\u{5a}-\\u{60}\\u{7e}-\\u{a0}]{1,9}")
        add("[\\u{0}-\\u{10FFFF}]{1,5}")
        add("[\"\\u{5c}\\u{2f}\\n\\t\\r\\u{8}\\u{c}bfnrtu0]{1,9}")
    words = b"a\"b\n\\\nx\ty\nback\\slash\r\n/sl/\n\x01\x1f\n\x7f\n"
    for _ in range(ctx.scale(60, 600)):
        add("\\w{q}{1,3}\\m{q}?", [("q", 2, words)])
    a, b = G.observe(ctx, "json", plain), G.observe(ctx, "json", js)
    ob = {id(g): o for g, o in b}
    cases = []
    for (g, o), j in zip(a, js):
        pass
    ja = {id(g): k for k, g in enumerate(plain)}
    for g, o in a:
        j = js[ja[id(g)]]
        if id(j) in ob:
            r = g.rec("json", o)
            o2 = ob[id(j)]
            r["o2"] = {k: v for k, v in o2.items() if k not in ("ast", "ast2")}
            cases.append((r, j.item()))
    ctx.validate("T_Gen", cases, "json")
    clicase.json_docs(ctx)
    clicase.known(ctx)
