"""C17: the hash map is a finite map. MC_Cuckoo proves that the two-position
table with relocation and growth refines FMap.tla for families of keys that
collide; every transition it explores is replayed into the real map, and long
random histories besides; T_Map judges each answer against FMap.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

FAM = os.path.join(SPEC, "hashkeys.ndjson")


class H:
    """a history over numbered keys; ops: (t, key number, value)"""

    def __init__(self, ctx, keys, ops):
        self.ctx, self.keys, self.ops = ctx, keys, ops

    def key(self, k):
        k = self.keys[k - 1]
        return (hx(k) if k else "") if self.ctx == "utf8" else ".".join(map(str, k))

    def line(self):
        f = {"i": lambda k, v: "i%s=%d" % (self.key(k), v), "d": lambda k, v: "d" + self.key(k), "l": lambda k, v: "l" + self.key(k), "t": lambda k, v: "t", "s": lambda k, v: "s%d" % v}
        return "hm %s %s" % (self.ctx, " ".join(f[t](k, v) for t, k, v in self.ops))

    def rec(self, o):
        return {"ops": [{"t": t, "k": k, "v": v} for t, k, v in self.ops], "o": o}

    def item(self):
        return {"context": self.ctx, "history": self.line()[3:] if len(self.ops) < 200 else self.line()[3:4000]}


def behaviours(ctx):
    fams = [json.loads(l) for l in open(FAM)]
    def one(f):
        return tlc_theorem("MC_Cuckoo", env={"HASHKEYS": FAM, "FAMILY": str(f)}, workers=2, heap="2g")
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, range(1, len(fams) + 1)))
    res = []
    for f, r in zip(fams, rs):
        ctx.count(r)
        hs = set()
        for m in re.finditer(r'@@hist (<<[^"]*>>)"', r.out.replace("\n", " ")):
            hs.add(tuple(tuple(map(int, t)) for t in re.findall(r"<<\s*(\d+)\s*,\s*(\d+)\s*,\s*(\d+)\s*>>", m.group(1))))
        if not hs:
            raise Broken("no histories of MC_Cuckoo")
        res.append(([k["s"] for k in f["keys"]], sorted(hs)))
    ctx.notes["theorems"] = [{"module": "MC_Cuckoo", "families": len(fams), "distinct_states": ctx.states}]
    return res


def check(ctx, what, hs, variant="drv"):
    obs = drive(build(variant)[variant], [h.line() for h in hs])
    its = [h.item() for h in hs]
    ok = split_crashes(ctx, what, its, obs)
    ctx.validate("T_Map", [(hs[i].rec(obs[i]), its[i]) for i in ok], what)


def random_history(rng, nkeys, n, bias):
    ops, val = [], 10
    for _ in range(n):
        k = rng.randint(1, nkeys)
        r = rng.random()
        if r < bias:
            val += 1
            ops.append(("i", k, rng.choice((val, val, val, 0))))
        elif r < bias + (1 - bias) * .5:
            ops.append(("d", k, 0))
        elif r < .97:
            ops.append(("l", k, 0))
        else:
            ops.append(rng.choice((("t", 0, 0), ("s", 0, rng.randint(1, 5)))))
    return ops + [("t", 0, 0)]


def run(ctx):
    rng = ctx.rng
    hs = []
    for keys, hists in behaviours(ctx):
        if not ctx.thorough and len(hists) > 900:
            hists = rng.sample(hists, 900)
        for h in hists:
            val, ops = 0, []
            for t, k, v in h:
                val += 1
                ops.append(("i" if t == 1 else "d", k, val))
            ops += [("l", k, 0) for k in range(1, len(keys) + 1)] + [("t", 0, 0), ("s", 0, 2)]
            hs.append(H("utf8", keys, ops))
    check(ctx, "replayed histories of MC_Cuckoo", hs)
    hs = []
    names = lambda n: list(dict.fromkeys("".join(rng.choice("abcde\u00e9 ") for _ in range(rng.choice((0, 1, 2, 3, 7, 8, 9, 15, 16, 40)))) for _ in range(3 * n)))[:n]
    fams = [[k["s"] for k in json.loads(l)["keys"]] for l in open(FAM)]
    for _ in range(ctx.scale(260, 4000)):
        keys = rng.choice((names(4), names(12), names(40), sum(rng.sample(fams, 3), []), sum(fams, [])))
        hs.append(H("utf8", keys, random_history(rng, len(keys), rng.choice((10, 30, 80, 200)), rng.choice((.35, .5, .8)))))
    for n in ctx.scale((100, 400), (100, 400, 1000)):
        keys = ["key%d" % k for k in range(n)]
        ops = [("i", k, k) for k in range(1, n + 1)] + [("l", k, 0) for k in range(1, n + 1, 3)] + [("d", k, 0) for k in range(1, n + 1, 2)] + [("t", 0, 0)] + \
            [("i", k, k + 5) for k in range(1, n + 1, 3)] + [("l", k, 0) for k in range(1, n + 1, 2)] + [("t", 0, 0)]
        hs.append(H("utf8", keys, ops))
    # long keys that agree but in one place
    for n in (32, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 4096):
        base = [rng.choice("abcdefgh") for _ in range(n)]
        keys = ["".join(base), "".join(base[:-1]), "".join(base) + "a", ""]
        for at in sorted({0, 1, 7, 8, 31, 32, 63, 64, 127, 128, 254, 255, 256, n // 2, n - 2, n - 1}):
            if at < n:
                keys.append("".join(base[:at] + [rng.choice("xyz")] + base[at + 1:]))
                keys.append("".join(base[:at]))
        keys = list(dict.fromkeys(keys))
        for _ in range(ctx.scale(2, 20)):
            hs.append(H("utf8", keys, random_history(rng, len(keys), rng.choice((30, 80, 200)), rng.choice((.35, .5, .8)))))
    # operations on maps that are empty, or empty again
    hs += [H("utf8", ["", "a"], ops) for ops in ([("d", 1, 0)], [("l", 1, 0), ("t", 0, 0), ("s", 0, 1)], [("i", 1, 0), ("d", 1, 0), ("d", 1, 0), ("t", 0, 0), ("i", 1, 3), ("i", 1, 4), ("l", 1, 0), ("l", 2, 0)])]
    check(ctx, "histories with string keys", hs)
    check(ctx, "histories with string keys (optimised build)", rng.sample(hs, ctx.scale(40, 400)), "drvrel")
    # sizes around those of 8 and 16 bits
    class M:
        def __init__(self, u, ops):
            self.u, self.ops = u, ops

        def line(self):
            return "hb %d %s" % (self.u, " ".join("T" if o["t"] == "T" else "%s%d:%d" % (o["t"], o["a"], o["n"]) + (":%d" % o["d"] if o["t"] == "I" else "") for o in self.ops))

        def rec(self, o):
            return {"u": self.u, "ops": self.ops, "o": o}

        def item(self):
            return {"many keys": self.line()}
    hs = []
    for n in (256, 1000, 65536, 140000) + ctx.scale((), (600000,)):
        for _ in range(ctx.scale(2, 6)):
            u = n + 300
            o = lambda t, a=0, k=0, d=0: {"t": t, "a": a, "n": k, "d": d}
            ops = [o("I", 0, n - 5, 7), o("L", 0, u), o("T")]
            for _ in range(rng.choice((4, 8))):
                k = rng.choice((1, 6, 40, 255, 256, n // 3, n))
                a = rng.randrange(u - min(k, u) + 1)
                ops.append(o(rng.choice("IIDDL"), a, min(k, u - a), rng.randint(1, 9)))
                if rng.random() < .6:
                    ops.append(o(rng.choice("LT"), 0, u))
            ops += [o("L", 0, u), o("T"), o("D", 0, u), o("T"), o("I", 3, 4, 1), o("T")]
            for x in ops:
                if x["t"] == "T":
                    x.update(a=0, n=0, d=0)
            hs.append(M(u, ops))
    check(ctx, "many keys", hs)
    check(ctx, "many keys (optimised build)", hs, "drvrel")
    # codepoint strings: not more than two keys with the same hash (see the known finding)
    hs = []
    for _ in range(ctx.scale(120, 2000)):
        keys = {}
        for _ in range(rng.choice((4, 10, 30))):
            n = rng.choice((1, 2, 3, 4, 4, 5, 8, 12, 16, 33))
            k = [rng.choice((97, 98, 233, 0x4e2d, 0x1f600, 1, rng.randint(1, 0x10ffff))) for _ in range(n)]
            b = b"".join(c.to_bytes(4, "little") for c in k)[:n]
            if len(keys.setdefault((n, b), [])) < 2 and k not in keys[(n, b)]:
                keys[(n, b)].append(k)
        ks = sum(keys.values(), [])
        hs.append(H("utf32", ks, random_history(rng, len(ks), rng.choice((10, 40, 120)), rng.choice((.35, .6)))))
    check(ctx, "histories with codepoint keys", hs)
    # the input of the known finding: three keys of one length that agree in
    # their first quarter
    check(ctx, "codepoint keys that share a quarter", [H("utf32", [[97, 1], [97, 2], [97, 3]], [("i", 1, 1), ("i", 2, 2), ("i", 3, 3), ("t", 0, 0)])])
