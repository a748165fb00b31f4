"""C12: output is bounded, complete or refused. Specification: the receivers of
Gen.tla (callback, codepoint, UTF-8 and JSON buffers); T_Gen (check "bounds")
requires exactly the specified result for every size around the length of the
sequence, untouched surroundings and no call after a refusal."""
from vlib import *
import gencase as G
import pgen
from checks import c01


class Long(G.Gen):
    """one item, many times, from zeros"""

    def __init__(self, item, reps, modes, env, word=False):
        super().__init__(item, bytes(256), modes, env)
        self.reps, self.word = reps, word

    def line(self):
        # the item is repeated by the pattern, or in the only word of a list
        z = "d:" + hx(b"zero")
        if self.word:
            return G.Gen("\\w{q}", b"", self.modes, [("q", 2, b"\n" + self.pat * self.reps + b"\n")], source=z).line()
        return G.Gen(self.pat + b"{%d}" % self.reps, b"", self.modes, self.env, source=z).line()

    def rec(self, check, o):
        return dict(super().rec(check, o), reps=self.reps)

    def item(self):
        return dict(super().item(), repetitions=self.reps, word=self.word)


def run(ctx):
    rng = ctx.rng
    behs = G.behaviours(ctx)
    G.replay(ctx, [b for b in behs if b[0]["lim"] >= 0 or b[3] != "ok"], ctx.scale(2, 10))
    gs = []
    pats = [G.random_pattern(rng) for _ in range(ctx.scale(260, 4000))] + c01.FIXED + \
        ["\\w{long}", "x\\w{long}y", "\\w{bad}", "x\\w{bad}", "\\w{dir}", "a\\m{dir}", "\\w{empty}", "\\m{empty}", "\\w{zz}", "ab\\m{zz}", "\\w{}", "\\m{bad}", "\\m{long}",
         "\\w{nl}", "a\\u{d800}b", "\\u{dfff}", "[\\u{d7ff}-\\u{e000}]{3}", "\\u{0}a", "a\\u{0}", "({0}a)b", "{0}a", "{0}", "\\w{w}\\w{dir}", "(\\w{zz}|a){3}", "\"\\\\\\n\\u{7f}",
         "[\\u{0}-\\u{1f}]{5}", "漢{3}", "😀{1,3}", "éa😀"] * 2
    env = G.WLS + [("long", 2, ("é" * 200 + "\n").encode()), ("bad", 2, b"ab\xc3\n"), ("dir", 2, None), ("empty", 2, b""), ("nl", 2, b"\n\n\n")]
    for p in pats:
        src = G.script(rng, 200)
        for _ in range(ctx.scale(7, 14)):
            m = rng.choice("uubbbjjc")
            lim = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24, 30, 40, 127, 128, 129, 200, 255, 256, 257, 398, 399, 400, 401, 600])
            gs.append(G.Gen(p, src, [(m, lim, rng.choice([-5, 1, 7, -1, 2147483647]))] * rng.choice([1, 1, 2]), env, noent=rng.random() < .15))
    # all sizes around the end of one sequence
    for p in ("aé漢😀", "a\"\\n漢", "[a-c]{7}", "abcdefghijklmnop", "\\u{1}\\u{1f}\"", "\\w{w}-\\w{u}", "\\m{m}x", "(é|漢){3}"):
        src = G.script(rng, 200)
        for m in "ubjc":
            for lim in range(0, 26):
                gs.append(G.Gen(p, src, [(m, lim, -9)], env))
    # huge repetitions end at the receiver
    for p in ("a{4294967295}", "[ab]{1000000}", "(é|x){4294967295}", "\\w{w}{4000000000}", "a{10,4294967295}", "((a{65536}){65536}){65536}"):
        for m, lim in (("u", 10), ("b", 33), ("j", 20), ("c", 17)):
            gs.append(G.Gen(p, G.script(rng, 64) + b"\xff" * 64, [(m, lim, -3)], env))
    # many of them, around the sizes of 16 bits
    ls = []
    units = [("a", 1), ("é", 1), ("😀", 1), ("\\u{1}", 1), ("[b-d]", 1), ("(ab)", 2), ("(a(\"c))", 3), ("\\w{one}", 4), ("(x|y)", 1)]
    sizes = {"a": 1, "é": 2, "😀": 4, "\\u{1}": 1, "[b-d]": 1, "(ab)": 2, "(a(\"c))": 3, "\\w{one}": 4, "(x|y)": 1}
    for total in (65535, 65536, 65537, 70001) + ctx.scale((), (131071, 131072, 131073, 200000)):
        for p, u in rng.sample(units, ctx.scale(2, 6)):
            for m in rng.sample("ubjc", 2):
                w = {"u": u, "c": u, "b": sizes[p], "j": {"\\u{1}": 6, "(a(\"c))": 4}.get(p, sizes[p])}[m]
                n = total // w
                ls.append(Long(p, n, [(m, lim, -7) for lim in (n * w, n * w - 1, n * w + 1, -1)[:3 + (m == "c")]], G.WLS))
    for n in (127, 128, 129, 255, 256, 257, 1024, 8192, 65535, 65536, 65537, 70001):
        u = rng.choice(("a", "é", "漢", "😀"))
        b = len(u.encode())
        ls.append(Long(u, n, [("u", n, -7), ("b", n * b, -7), ("b", n * b - 1, -7), ("j", n * b, -7), ("c", n - 1, -7), ("c", -1, -7)], [], word=True))
    G.check(ctx, "long output", "long", ls)
    G.check(ctx, "long output (optimised build)", "long", rng.sample(ls, 6), variant="drvrel")
    G.check(ctx, "bounds", "bounds", gs)
    G.check(ctx, "bounds (optimised build)", "bounds", rng.sample(gs, ctx.scale(300, 3000)), variant="drvrel")
