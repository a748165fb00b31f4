"""Cases of generation for T_Gen: command lines of the driver and the records
the specification reads."""
from vlib import *
import pgen

ZERO = {"fin": 2, "neg": 0, "m": [], "e": 0}


class Gen:
    """pattern (str or bytes), src: bytes of the script, modes: list of
    (letter, lim, ret), env: list of (name, level, data or None)."""

    def __init__(self, pat, src, modes, env=(), limit=None, noent=False, source=None):
        self.pat = pat.encode() if isinstance(pat, str) else pat
        self.src, self.modes, self.env, self.limit, self.noent, self.source = src, modes, list(env), limit, noent, source

    def line(self):
        ms = []
        for m, lim, ret in self.modes:
            l = m.upper() if self.noent else m
            ms.append(l + ("-" if m == "c" and lim < 0 else "%d:%d" % (lim, ret) if m == "c" else str(lim)))
        ws = ["w=%s:%d:%s" % (hx(n), lv, "!" if d is None else hx(d)) for n, lv, d in self.env]
        return "gen %s %s %s %s" % (self.source or "s:" + hx(self.src), "-" if self.limit is None else self.limit,
                                    hx(self.pat), " ".join(ms + ws))

    def rec(self, check, o):
        if check != "same":
            o = {k: v for k, v in o.items() if k not in ("ast", "ast2")}
        return {"check": check, "pat": list(self.pat), "src": list(self.src),
                "modes": [{"m": m, "lim": lim, "ret": ret} for m, lim, ret in self.modes],
                "env": [{"name": list(n.encode() if isinstance(n, str) else n), "level": lv, "bad": 1 if d is None else 0,
                         "data": list(d or b"")} for n, lv, d in self.env],
                "limit": 1024 if self.limit is None else self.limit, "o": o}

    def item(self):
        return {"pattern": self.pat.decode("latin1"), "stream": self.source or self.src.hex(), "modes": ["%s%d:%d" % x for x in self.modes],
                "env": [[n if isinstance(n, str) else n.hex(), lv, None if d is None else d.hex()] for n, lv, d in self.env],
                "limit": self.limit}


def observe(ctx, what, gens, variant="drv"):
    b = build(variant)[variant]
    obs = drive(b, [g.line() for g in gens])
    items = [g.item() for g in gens]
    ok = split_crashes(ctx, what, items, obs)
    return [(gens[i], obs[i]) for i in ok]


def check(ctx, what, aspect, gens, variant="drv", batch=20000):
    pairs = observe(ctx, what, gens, variant)
    return ctx.validate("T_Gen", [(g.rec(aspect, o), g.item()) for g, o in pairs], what, batch=batch)


WL = b"alpha\nbeta\ngamma\ndelta\nepsilon\nzeta\n"
WLS = [("w", 2, WL), ("u", 1, "äpfel\nöl\nüber\n漢字\nab\n".encode()), ("m", 2, b"abab\nabba\nbab\naab\nb\n"), ("one", 3, b"only")]
NAMES = [("w", "w"), ("w", "u"), ("m", "m"), ("m", "w"), ("w", "one"), ("m", "u"), ("m", "one")]


def script(rng, n=256):
    r = rng.random()
    if r < .7:
        return bytes(rng.randrange(256) for _ in range(n))
    if r < .8:
        return b"\xff" * rng.randrange(n) + bytes(rng.randrange(256) for _ in range(16))
    if r < .9:
        return bytes(rng.choice((0, 0, 1, 127, 128, 255)) for _ in range(n))
    return b""


def random_pattern(rng, words=True, depth=3):
    return pgen.pattern(rng, depth, NAMES if words else ())


def smear(n):
    return (1 << n.bit_length()) - 1


def encode_draws(rng, draws, reject=0.0):
    """Bytes that make a generation draw the given values: random bits above
    the mask of each bound, and now and then candidates to be rejected."""
    b = bytearray()
    for w, bound, v in draws:
        if w == 1:
            b.append(rng.randrange(128) + 128 * v)
            continue
        m = smear(bound)
        while rng.random() < reject and m >= bound:
            b += (rng.randint(bound, m) | (rng.getrandbits(64) & ~m)).to_bytes(8, "little")
        b += (v | (rng.getrandbits(64) & ~m)).to_bytes(8, "little")
    return bytes(b)


def behaviours(ctx, patterns="patterns.ndjson"):
    """Model checks MC_Gen and returns its completed behaviours as
    (pattern record, draws, output, status, (num, den))."""
    path = os.path.join(SPEC, patterns)
    r = ctx.theorem("MC_Gen", env={"PATTERNS": path})
    pats = [json.loads(l) for l in open(path)]
    res = []
    for m in re.finditer(r'@@beh (\d+) \| ([^"]*)"', r.out.replace("\n", " ")):
        f = [x.strip() for x in m.group(2).split("|")]
        draws = [tuple(map(int, re.findall(r"\d+", t))) for t in re.findall(r"<<\s*(\d+\s*,\s*\d+\s*,\s*\d+)\s*>>", f[0])]
        ints = lambda t: [int(x) for x in re.findall(r"\d+", t)]
        res.append((pats[int(m.group(1)) - 1], draws, ints(f[1]), f[2], (unbig(ints(f[3])), unbig(ints(f[4])))))
    if len(res) < 500:
        raise Broken("only %d behaviours of MC_Gen could be read" % len(res))
    return res


def from_behaviour(rng, beh, reject=0.0):
    p, draws = beh[0], beh[1]
    return Gen(bytes(p["pat"]), encode_draws(rng, draws, reject), [(p["m"], p["lim"], -5)],
               [(bytes(w["name"]), w["level"], None if w["bad"] else bytes(w["data"])) for w in p["env"]],
               None if p["limit"] == 1024 else p["limit"])


def replay(ctx, behs, rounds=2):
    """Replays behaviours of the specification into the implementation."""
    gens, exp = [], []
    for k in range(rounds):
        for b in behs:
            gens.append(from_behaviour(ctx.rng, b, 0.4 if k else 0.0))
            exp.append(b)
    obs = drive(build("drv")["drv"], [g.line() for g in gens])
    items = [g.item() for g in gens]
    for i in split_crashes(ctx, "replay", items, obs):
        p, draws, outp, st, ent = exp[i]
        o = obs[i]["g"][0] if obs[i].get("g") else None
        fill = p["m"] in "ubj"
        if o is None:
            why = "the pattern is not accepted"
        elif st == "ok":
            why = None if o["ret"] == 0 and o["o"] == outp and o["n"] == len(outp) else "should generate %s" % outp
        else:
            why = None if (o["n"] == 0 if fill else o["ret"] != 0 and o["o"] == outp) else "should fail after %s" % outp
        if why:
            ctx.fail("replay", "%s, observed %s" % (why, json.dumps(o)[:300]), items[i])
    ctx.traces += len(gens)
    d = ctx.notes.setdefault("validated", {})
    d["replayed behaviours of MC_Gen"] = len(gens)


def wide(rng, full=False):
    """Structures whose sizes are beyond eight bits: alternatives, ranges,
    items, literals, nesting, words of a list, names and lists of an
    environment."""
    rb = lambda n: bytes(rng.randrange(256) for _ in range(n))
    cjk = lambda n: "".join(chr(0x4e00 + 2 * i) for i in range(n))
    words = lambda n, m=b"%x": b"\n".join(m % k for k in range(n))
    u = [("u", 600, -5)]
    gs = []
    for n in ((255, 256, 257, 300, 511, 513) if full else (256, 300, rng.choice((255, 257, 511)))):
        gs += [Gen("|".join("x%x" % i for i in range(n)), rb(64), u),
               Gen("(" + "|".join("%x" % i for i in range(n)) + "){7}", rb(256), u),
               Gen("[" + cjk(n) + "]{5}", rb(128), [("u", 600, -5), ("b", 600, -5)]),
               Gen("[^" + cjk(n) + "]{2}", rb(128), u),
               Gen("(" * n + "a" + ")?" * n, rb(8 * n), u),
               Gen("[a-c]" * n, rb(9 * n), [("u", 900, -5)]),
               Gen("(" + cjk(n) + "){3}", rb(16), [("u", 4 * n, -5), ("b", 12 * n, -5)]),
               Gen(cjk(n) + "|" + cjk(n + 1), rb(16), [("b", 12 * n, -5)]),
               Gen("\\w{q}{9}", rb(256), u, [("q", 2, words(n))]),
               Gen("\\m{q}{9}", rb(2000), u, [("q", 2, words(n, b"ab%x"))]),
               Gen("\\w{%s}" % ("n" * n), rb(64), u, [("n" * n, 2, words(5)), ("n" * (n - 1), 2, words(3)), ("n" * (n & 255), 1, words(4))]),
               Gen("a{%d}|b{%d,%d}" % (n, n - 2, n + 1), rb(64), [("u", n + 20, -5)])]
    for n in ((255, 256, 257, 65535, 65536, 65537, 70000) if full else (256, 65536, 65537 + rng.randrange(5000))):
        gs.append(Gen("\\w{q}{3}", rb(64), u, [("q", 2, words(n))]))
    return gs
