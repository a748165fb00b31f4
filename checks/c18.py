"""C18: stack and array. MC_BinStack proves that the binned stack refines a
plain sequence (contents survive every reallocation, every access is within
its bin); T_Seq judges histories of the real containers, run with an address
sanitizer, which walk around every boundary of bins and powers of two."""
from vlib import *

EDGES = (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 159, 160, 161, 255, 256, 257)


class S:
    def __init__(self, kind, size, ops):
        self.kind, self.size, self.ops = kind, size, ops

    def line(self):
        return "%s %d %s" % (self.kind, self.size, " ".join(n + (str(v) if t in "pg" else "") for n, t, v in self.ops))

    def rec(self, o):
        return {"ops": [{"t": t, "v": v} for _, t, v in self.ops], "o": o}

    def item(self):
        return {"container": self.kind, "element size or capacity": self.size, "history": self.line() if len(self.ops) < 400 else self.line()[:4000]}


class W:
    """writes a history, keeping the length to choose positions by"""

    def __init__(self, rng, kind, size):
        self.rng, self.kind, self.size, self.ops, self.n, self.id = rng, kind, size, [], 0, rng.randrange(200)
        self.mod = 250 if kind == "st" and size < 2 else 60000

    def push(self):
        self.id = (self.id + 1) % self.mod
        self.ops.append((self.rng.choice("ppP") if self.kind == "st" else "p", "p", self.id))
        self.n += 1

    def pop(self, quiet=True):
        t = self.rng.choice("oooO") if self.kind == "st" and quiet else "o"
        self.ops.append((t, t, 0))
        self.n = max(0, self.n - 1)

    def look(self):
        r = self.rng.random()
        if self.kind == "ar":
            if self.n:
                self.ops.append(("g", "g", self.rng.choice((0, self.n - 1, self.rng.randrange(self.n)))))
        elif r < .5:
            self.ops.append(("g", "g", max(0, self.rng.choice((0, self.n - 1, self.n, self.n + 1, self.n + 31, self.n + 100, self.rng.randrange(self.n + 1), 1000000)))))
        elif r < .8 or self.n > 100:
            self.ops.append(("t", "t", 0))
        else:
            self.ops.append(("f", "f", 0))

    def to(self, n):
        while self.n < n:
            self.push()
        while self.n > n:
            self.pop()

    def all(self):
        if self.kind == "st":
            self.ops.append(("f", "f", 0))
        else:
            self.ops += [("g", "g", k) for k in range(self.n)]

    def end(self):
        self.all()
        while self.n:
            self.pop(False)
        self.pop()
        self.push()
        self.look()
        return S(self.kind, self.size, self.ops)


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_BinStack", ctx.scale("MC_BinStack", "MC_BinStack_deep"))
    ctx.theorem("MC_BinStack", "MC_BinStack_32")
    hs = []
    sizes = (1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 24, 33, 64, 100, 257, 600, 1500, 5000)
    # every edge, from both sides, with every element size
    for esz in sizes:
        for e in EDGES if ctx.thorough else rng.sample(EDGES, 9):
            w = W(rng, "st", esz)
            w.to(max(0, e - 2))
            for _ in range(3):
                w.to(e + 1)
                w.all() if e < 70 else w.look()
                w.to(max(0, e - 1))
                w.look()
                w.to(e + 2)
                w.to(max(0, e - 2))
            w.to(e)
            hs.append(w.end())
    # jumps between edges
    for _ in range(ctx.scale(60, 900)):
        w = W(rng, "st", rng.choice(sizes))
        for _ in range(rng.choice((3, 6, 10))):
            w.to(max(0, rng.choice(EDGES[:22]) + rng.choice((-1, 0, 0, 1))))
            w.look()
        hs.append(w.end())
    # arbitrary
    for _ in range(ctx.scale(160, 3000)):
        w = W(rng, rng.choice(("st", "st", "ar")), rng.choice(sizes))
        p = rng.choice((.3, .5, .5, .7))
        for _ in range(rng.choice((5, 20, 60, 150))):
            r = rng.random()
            w.push() if r < p else w.pop() if r < .8 else w.look()
            if rng.random() < .02:
                p = rng.choice((.2, .5, .75))
        hs.append(w.end())
    for cap in (0, 1, 2, 3, 4, 5, 8, 31, 100):
        for n in (1, 3, 4, 5, 7, 8, 9, 16, 17, 40):
            w = W(rng, "ar", cap)
            w.to(n)
            w.all()
            w.to(n // 2)
            w.to(n + 1)
            hs.append(w.end())
    def check(what, hs, variant):
        obs = drive(build(variant)[variant], [h.line() for h in hs])
        its = [h.item() for h in hs]
        ok = split_crashes(ctx, what, its, obs)
        ctx.validate("T_Seq", [(hs[i].rec(obs[i]), its[i]) for i in ok], what)
    check("histories", hs, "drv")
    check("histories (optimised build)", rng.sample(hs, ctx.scale(60, 900)), "drvrel")
    # sizes around those of 8, 16 and more bits, of elements and of bins
    class M(S):
        def line(self):
            f = {"B": lambda o: "B%d:%d:%d" % (o["v"], o["n"], 249), "D": lambda o: "D%d:249" % o["n"], "F": lambda o: "F249", "g": lambda o: "g%d" % o["v"]}
            return "%s %d %s" % (self.kind, self.size, " ".join(f[o["t"]](o) for o in self.ops))

        def rec(self, o):
            return {"ops": self.ops, "md": 249, "o": o}

        def item(self):
            return {"container": self.kind, "element size or capacity": self.size, "history": self.line()}
    hs = []
    for n in (255, 256, 8192, 65536, 32 * 65536) + ctx.scale((), (16384, 32768, 131072, 1 << 20, 1 << 22)):
        for kind, size in (("st", rng.choice((1, 2, 3, 8))), ("st", rng.choice((1, 5, 16, 24))), ("ar", rng.choice((0, 1, 5, 1000)))):
            ops, ln = [], 0

            def to(k):
                nonlocal ln
                while ln != k:
                    c = min(abs(k - ln), rng.choice((1, 33, 100, n)))
                    ops.append({"t": "B", "v": rng.randrange(249), "n": c} if k > ln else {"t": "D", "v": 0, "n": c})
                    ln += c if k > ln else -c

            def look():
                for _ in range(6):
                    p = max(0, rng.choice((0, ln - 1, ln - 2, n - 1, n, n // 2, n - 31, n - 33, rng.randrange(ln + 1))))
                    if p < ln or kind == "st":
                        ops.append({"t": "g", "v": p, "n": 0})
            if n > 100000:
                ops.append({"t": "B", "v": 5, "n": n - 60})
                ln = n - 60
            for t in (n - 2, n, n + 1, n - 1, n + 40, n - 33, n + 1):
                to(t)
                look()
            ops.append({"t": "F", "v": 0, "n": 0})
            if n < 100000:
                for t in (n // 2 + 1, n // 2 - 40, n + 5, 31, 33, n):
                    to(t)
                    look()
            ops += [{"t": "F", "v": 0, "n": 0}, {"t": "D", "v": 0, "n": ln}, {"t": "B", "v": 7, "n": 3}, {"t": "F", "v": 0, "n": 0}]
            hs.append(M(kind, size, ops))
    check("many elements", hs, "drv")
    check("many elements (optimised build)", hs, "drvrel")
    if ctx.thorough:
        hs = []
        for n in (1000, 2047, 2048, 2049, 4097):
            w = W(rng, "st", rng.choice(sizes))
            w.to(n)
            w.to(n - 40)
            w.to(n + 1)
            hs.append(w.end())
        check("long histories", hs, "drv")
