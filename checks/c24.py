"""C24: independent handles do not influence each other. Specification:
Sessions.tla, the library as a state machine over slots of sources, patterns and
environments that share nothing. MC_Sessions shows that every interleaving of
small programs gives each thread of operations what it gets alone; these
interleavings are replayed into the implementation, together with longer random
ones, reuse of slots and memory, and with the same threads running at the same time
(under a detector of data races); T_Ses requires the results of the
specification."""
from vlib import *
import gencase as G
import pgen
from randcase import R, U, M, BOOL, RELOAD, opstr


def opline(o):
    k = o["o"]
    b = lambda x: hx(bytes(x))
    if k == "S":
        return "S%d=%s" % (o["h"], "d:" + hx(b"file:" + o["path"].encode()) if "path" in o else "s:" + b(o["s"]["data"]) if o["s"]["k"] == "script" else "d:" + b(o["s"]["d"]))
    if k in "xfeaq":
        return "%s%d" % (k, o["h"])
    if k == "r":
        return "r%d:%s" % (o["h"], opstr(o["op"]))
    if k == "P":
        return "P%d=%s" % (o["h"], b(o["pat"]))
    if k == "E":
        return "E%d=%d" % (o["h"], o["s"])
    if k == "W":
        return "W%d=%s:%d:%s" % (o["h"], b(o["name"]), o["level"], "!" if o["bad"] else b(o["data"]))
    if k == "D":
        return "D%d=%d" % (o["h"], o["n"])
    if k == "g":
        return "g%d,%d:%s" % (o["p"], o["e"], o["m"] + ("-" if o["m"] == "c" and o["lim"] < 0 else "%d:%d" % (o["lim"], o["ret"]) if o["m"] == "c" else str(o["lim"])))
    if k == "I":
        return "I%s;%s" % ("".join(map(str, o["sch"])), ";".join(map(opline, o["ops"])))
    raise KeyError(k)


def Ssc(h, data): return {"o": "S", "h": h, "s": {"k": "script", "data": list(data), "d": []}}
def Sd(h, d): return {"o": "S", "h": h, "s": {"k": "desc", "d": list(d.encode()), "data": []}}
def Sf(h, f): return {"o": "S", "h": h, "s": {"k": "script", "data": list(f[1]), "d": []}, "path": f[0]}
def X(h): return {"o": "x", "h": h}
def Rd(h, op): return {"o": "r", "h": h, "op": op}
def P(h, p): return {"o": "P", "h": h, "pat": list(p.encode())}
def Q(h, p): return {"o": "q", "h": h, "pat": list(p.encode())}
def F(h): return {"o": "f", "h": h}
def A(h): return {"o": "a", "h": h}
def E(h, s): return {"o": "E", "h": h, "s": s}
def W(h, name, level, data): return {"o": "W", "h": h, "name": list(name.encode()), "level": level, "bad": 1 if data is None else 0, "data": list(data or b"")}
def D(h, n): return {"o": "D", "h": h, "n": n}
def Ef(h): return {"o": "e", "h": h}
def Gn(p, e, m="c", lim=-1, ret=-5): return {"o": "g", "p": p, "e": e, "m": m, "lim": lim, "ret": ret}

def I(ops, sch): return {"o": "I", "ops": ops, "sch": sch}


def programs():
    s = bytes((i * 37 + i // 7) & 255 for i in range(300))
    z = bytes(reversed(s))
    return [
        [[Sd(1, "xorshift:5"), Rd(1, R(1020)), Rd(1, U(8)), X(1), Sd(1, "xorshift:9"), Rd(1, U(4))],
         [Sd(2, "xorshift:6"), Rd(2, U(2)), Rd(2, R(1030)), Rd(2, U(8))]],
        [[Ssc(1, s), P(1, "[a-c]{2}\\w{w}"), E(1, 1), W(1, "w", 2, b"abc\nd\n"), Gn(1, 1)],
         [Ssc(2, z), P(2, "\\w{w}|b\\m{w}"), E(2, 2), W(2, "w", 1, b"qq\nq\nrrr"), Gn(2, 2), A(2)]],
        [[P(1, "(a{2"), P(1, "(a|b){2}"), A(1), F(1), P(1, "x?[yz]")],
         [P(2, "a\\u{61}[b-d"), P(2, "{3}a|(b|{2}c)?"), A(2), P(3, "\\u{zz}"), A(2)]],
        [[Ssc(1, s), E(1, 1), W(1, "m", 2, b"abab\nabba\n"), P(1, "\\m{m}"), Gn(1, 1), Gn(1, 1, "u", 3)],
         [Ssc(2, s), E(2, 2), W(2, "m", 1, b"abab\nabba\n"), P(2, "\\m{m}"), Gn(2, 2)]],
        [[Ssc(1, s), P(1, "(a(b|c)){3}"), E(1, 1), D(1, 1), Gn(1, 1), D(1, 2)],
         [Ssc(2, z), E(2, 2), P(2, "((x)|y){2}"), Gn(2, 2, "b", 2)]],
        [[Ssc(1, s), Rd(1, M(1, 200)), Rd(1, BOOL), X(1)],
         [Ssc(2, z), Rd(2, M(8, 77777)), Rd(2, RELOAD)],
         [Sd(3, "zero")]],
        [[P(1, "[ab]{3}"), Ssc(1, s), E(1, 1), Gn(1, 1), F(1)],
         [P(2, "[xy]{3}"), Ssc(2, z), E(2, 2), Gn(2, 2)],
         [E(3, 4)]],
        # an environment whose list cannot be used, beside one of the same name that can
        [[Ssc(1, s), P(1, "a\\w{w}"), E(1, 1), W(1, "w", 2, None), Gn(1, 1), Gn(1, 1)],
         [Ssc(2, z), P(2, "b\\w{w}"), E(2, 2), W(2, "w", 2, b"ok"), Gn(2, 2)]],
    ]


def behaviours(ctx):
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=BUILD, delete=False)
    progs = programs()
    try:
        for t in progs:
            f.write(json.dumps({"t": t}) + "\n")
        f.close()
        r = ctx.theorem("MC_Sessions", env={"PROGRAMS": f.name})
        if ctx.thorough:
            g = open(f.name, "w")
            for k in range(60):
                g.write(json.dumps({"t": [thread(ctx.rng, t, 9, heavy=False) for t in range(2 + k % 2)]}) + "\n")
            g.close()
            ctx.theorem("MC_Sessions", "MC_Sessions_deep", env={"PROGRAMS": f.name})
    finally:
        os.unlink(f.name)
    res = []
    for m in re.finditer(r"@@ord (\d+) <<([\d, \n]*)>>", r.out):
        res.append((progs[int(m.group(1)) - 1], [int(x) - 1 for x in re.findall(r"\d+", m.group(2))]))
    if len(res) < 1000:
        raise Broken("only %d interleavings of MC_Sessions" % len(res))
    return res


def turn_programs():
    s = bytes((i * 37 + i // 7) & 255 for i in range(300))
    z = bytes(reversed(s))
    two = lambda a, b, wa=b"abc\nd\n", wb=b"qq\nrrr": {
        "pre": [Ssc(1, s), P(1, a), E(1, 1), W(1, "w", 2, wa), Ssc(2, z), P(2, b), E(2, 2), W(2, "w", 1, wb)], "ops": [Gn(1, 1), Gn(2, 2)], "own": [1, 2]}
    return [
        two("\\w{w}", "\\w{w}"), two("\\m{w}", "x\\m{w}", b"abab\nabba\n", b"ab\nba\n"), two("(a|b){3}", "[x-z]{3}"), two("a\\w{w}", "\\m{w}b"), two("(a(b|c)?){2}", "\\w{w}[0-9]"),
        two("ab\\w{zz}", "\\w{w}"),
        # one source, two environments
        {"pre": [Ssc(1, s), P(1, "[ab]\\w{w}"), E(1, 1), W(1, "w", 2, b"abc\nd\n"), P(2, "(x|y){3}"), E(2, 1)], "ops": [Gn(1, 1), Gn(2, 2)], "own": []},
        # one pattern
        {"pre": [Ssc(1, s), P(1, "(a|b\\w{w}){2}"), E(1, 1), W(1, "w", 2, b"ef\ng\n"), Ssc(2, z), E(2, 2), W(2, "w", 2, b"hi\n")], "ops": [Gn(1, 1), Gn(1, 2)], "own": [1, 2]},
        # one environment
        {"pre": [Ssc(1, s), P(1, "[ab]{2}\\w{w}"), E(1, 1), W(1, "w", 2, b"abc\nd\n"), P(2, "\\m{w}")], "ops": [Gn(1, 1), Gn(2, 1)], "own": []},
        # other operations in between
        {"pre": [Ssc(1, s), P(1, "\\w{w}[ab]{2}"), E(1, 1), W(1, "w", 2, b"abc\nd\n"), Ssc(2, z)], "ops": [Gn(1, 1), P(2, "(x|\\w{w}){2}"), Rd(2, U(8)), P(3, "(a{"), E(2, 2)], "own": [1, 2, 3, 4, 5]},
        {"pre": [Ssc(1, s), P(1, "a|b|c"), P(2, "\\w{w}x"), E(1, 1), E(2, 1), W(2, "w", 1, b"kl\n"), W(1, "w", 1, b"op\n")], "ops": [Gn(1, 1), Gn(2, 2), Gn(2, 1)], "own": []},
    ]


def turns(ctx):
    """schedules of generations that take turns"""
    rng = ctx.rng
    progs = turn_programs()
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=BUILD, delete=False)
    try:
        for t in progs:
            f.write(json.dumps(t) + "\n")
        f.close()
        r = ctx.theorem("MC_Turns", env={"PROGRAMS": f.name})
    finally:
        os.unlink(f.name)
    res = []
    for m in re.finditer(r"@@sch (\d+) <<([\d, \n]*)>>", r.out):
        t = progs[int(m.group(1)) - 1]
        res.append(t["pre"] + [I(t["ops"], [int(x) for x in re.findall(r"\d+", m.group(2))])])
    if len(res) < 500:
        raise Broken("only %d schedules of MC_Turns" % len(res))
    judge(ctx, "replayed turns", res if ctx.thorough else rng.sample(res, min(len(res), 500)))
    S = []
    for _ in range(ctx.scale(120, 2500)):
        pre, ops = [], []
        shared = rng.random() < .25
        n = rng.choice((2, 2, 3, 4))
        for k in range(1, n + 1):
            e = 1 if shared and rng.random() < .3 else k
            if not shared or k == 1:
                pre.append(Ssc(k, G.script(rng, 400)) if shared else source(rng, k))
            p = rng.choice((pattern(rng), "\\w{w}-\\w{v}", "\\m{w}\\w{w}"))
            pre.append(P(k, p))
            pre += [E(k, 1 if shared else k)] + [W(k, x, rng.randint(1, 3), rng.choice((wordlist(rng), b"kk\nl\n")) if not shared else rng.choice((b"one\ntwo\n", b"abab\nba\n", None))) for x in rng.choice(("w", "wv", "vw"))]
            ops.append(Gn(k, e, "c", -1 if rng.random() < .8 else rng.randint(0, 9)) if rng.random() < .85 else Gn(k, e, rng.choice("ubj"), 100))
        if rng.random() < .4:
            ops.append(rng.choice((P(7, pattern(rng)), P(7, "(a"), Ssc(7, b"abc"), A(1))))
        m = rng.random()
        L = rng.randint(1, 60)
        sch = [rng.randint(1, len(ops)) for _ in range(L)] if m < .6 else [1 + k % len(ops) for k in range(L)] if m < .8 else [1] * rng.randint(1, 9) + [2] * 30
        S.append(pre + [I(ops, sch)] + ([Gn(1, 1), A(1)] if rng.random() < .5 else []))
    judge(ctx, "turns", S)
    judge(ctx, "turns (optimised build)", rng.sample(S, ctx.scale(40, 1000)), "drvrel")


def merge(threads, order):
    pc = [0] * len(threads)
    ops = []
    for t in order:
        ops.append(threads[t][pc[t]])
        pc[t] += 1
    return ops


def pattern(rng):
    return rng.choice(["[a-z]{5}", "(a|b|c){4}", "\\w{w}\\w{v}", "\\m{w}", "{3}a|b|{2}\\w{w}", "(a?b?){3}", "[\\u{0}-\\u{3ff}]{3}", "\\m{v}|\\w{v}", "((a|b){1,3}|c){2}", "(((x)))y", "", "\\w{zz}|a"])\
        if rng.random() < .6 else G.random_pattern(rng, depth=2)


FILES = []  # (path, the bytes of the file before zeroes)


def files(rng, d):
    FILES.clear()
    for k in range(4):
        FILES.append((os.path.join(d, "source%d" % k), G.script(rng, 700)))
        with open(FILES[-1][0], "wb") as f:
            f.write(FILES[-1][1].ljust(1 << 17, b"\0"))


def source(rng, h):
    r = rng.random()
    if r < .2:
        return Sf(h, rng.choice(FILES))
    if r < .55:
        return Ssc(h, G.script(rng, 300))
    if r < .9:
        return Sd(h, "xorshift:%d" % rng.randint(1, 1 << rng.randint(1, 62)))
    if r < .95:
        return Sd(h, "zero")
    return Sd(h, "chacha20:%s" % "".join(rng.choice("ab01") for _ in range(rng.randint(0, 32))))


def wordlist(rng):
    return rng.choice((b"alpha\nbeta\ngamma\n", b"one", b"x\nyy\nzzz\n", "\u00e9t\u00e9\n\u00fc\n".encode(), b"abab\nbab\n", b"", None, b"aa\xff\n"))


def thread(rng, t, n, heavy=True, shared=None):
    """operations on slots 4t+1..4t+4 (sources, patterns, environments)"""
    b = 4 * t
    ops = [source(rng, b + 1)]
    if not heavy:
        ops = [Ssc(b + 1, G.script(rng, 120))]
    src, pat, env, opens = {b + 1}, set(), {}, 1
    if shared:
        ops.append(Q(b + 4, shared))
        pat.add(b + 4)
    while len(ops) < n:
        r = rng.random()
        h = b + rng.randint(1, 3)
        if r < .10 and len(src) < 3:
            if h not in src and (opens < 4 if heavy else True):
                s = source(rng, h) if heavy else Ssc(h, G.script(rng, 60))
                ops.append(s)
                src.add(h)
                opens += 1
        elif r < .15 and len(src) > 1:
            h = rng.choice(sorted(src))
            if h not in env.values():
                ops.append(X(h))
                src.discard(h)
        elif r < .28:
            ops.append(Rd(rng.choice(sorted(src)), rng.choice((R(rng.randint(0, 12)), U(8), U(4), U(1), BOOL, M(8, rng.randint(1, 1 << 40)), M(2, rng.randint(1, 60000)), R(rng.choice((1000, 1024, 1100)) if heavy else 9), RELOAD))))
        elif r < .42:
            if h not in pat and h != b + 4:
                p = pattern(rng) if rng.random() < .85 else rng.choice(("(a", "[z", "a{", "\\u{110000}", "{2", "a)"))
                ops.append(P(h, p))
                try:
                    if p not in ("(a", "[z", "a{", "\\u{110000}", "{2", "a)"):
                        pat.add(h)
                except Exception:
                    pass
        elif r < .46 and pat:
            h = rng.choice(sorted(pat))
            if h != b + 4:
                ops.append(F(h))
                pat.discard(h)
        elif r < .52 and pat:
            ops.append(A(rng.choice(sorted(pat))))
        elif r < .64:
            if h not in env:
                env[h] = rng.choice(sorted(src))
                ops.append(E(h, env[h]))
                for _ in range(rng.randint(0, 2)):
                    ops.append(W(h, rng.choice("wvw"), rng.randint(1, 3), wordlist(rng)))
        elif r < .68 and env:
            h = rng.choice(sorted(env))
            ops.append(Ef(h))
            del env[h]
        elif r < .72 and env:
            ops.append(D(rng.choice(sorted(env)), rng.choice((1, 2, 3, 1024))))
        elif env and pat:
            m = rng.choice("cccubj")
            ops.append(Gn(rng.choice(sorted(pat)), rng.choice(sorted(env)), m, -1 if m == "c" and rng.random() < .7 else rng.choice((0, 3, 8, 40, 200)), rng.choice((-5, 3))))
    return ops


def judge(ctx, what, sessions, variant="drv"):
    """sessions: lists of operations"""
    b = build(variant)[variant]
    obs = drive(b, ["ses " + " ".join(map(opline, ops)) for ops in sessions])
    its = [{"session": " ".join(map(opline, ops))[:20000]} for ops in sessions]
    ok = split_crashes(ctx, what, its, obs)
    return ctx.validate("T_Ses", [({"ops": sessions[i], "r": obs[i]["r"], "same": 1}, its[i]) for i in ok], what)


def threads(ctx, what, cases, rounds, variant):
    """cases: (shared pattern, threads)"""
    b = build(variant)[variant]
    lines = ["thr %d %s %s" % (rounds, hx(p), " / ".join(" ".join(map(opline, t)) for t in ts)) for p, ts in cases]
    obs = drive(b, lines, workers=3)
    its = [{"threads": l[:20000]} for l in lines]
    cs = []
    for i in split_crashes(ctx, what, its, obs):
        for k, t in enumerate(cases[i][1]):
            cs.append(({"ops": t, "r": obs[i]["t"][k]["r"], "same": obs[i]["t"][k]["same"]}, its[i]))
    return ctx.validate("T_Ses", cs, what)


def wide(rng):
    """patterns with many alternatives"""
    n = rng.choice((2, 3, 5, 8, 9, 10, 12, 17, 33))
    k = rng.random()
    b = rng.choice((0x41, 0x61)) if n < 6 else rng.choice((0x430, 0x3041))
    if k < .5:
        x = rng.choice((2, 3))
        return "[" + "".join(chr(b + x * i) + ("-" + chr(b + 1 + x * i) if x == 3 and rng.random() < .5 else "") for i in range(n)) + "]{%d}" % rng.choice((8, 20))
    if k < .8:
        return "(" + "|".join(rng.choice(("", "{2}", "{%d}" % rng.randint(1, 9))) + chr(b + i) + rng.choice(("", "", "[xy]", "z?")) for i in range(n)) + "){%d}" % rng.choice((8, 20))
    return "".join(rng.choice(("[a-c]", "b?", "(c|d)", "\\w{w}", "e{1,3}", "\\m{w}")) for i in range(n))


def run(ctx):
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        files(ctx.rng, d)
        run_in(ctx)


def run_in(ctx):
    rng = ctx.rng
    behs = behaviours(ctx)
    judge(ctx, "replayed interleavings", [merge(*b) for b in (rng.sample(behs, min(len(behs), 500)) if not ctx.thorough else behs)])
    S = []
    for _ in range(ctx.scale(150, 3000)):
        ts = [thread(rng, t, rng.randint(8, 26)) for t in range(rng.choice((2, 2, 3)))]
        order = sum(([t] * len(x) for t, x in enumerate(ts)), [])
        rng.shuffle(order)
        S.append(merge(ts, order))
    judge(ctx, "random interleavings", S)
    judge(ctx, "random interleavings (optimised build)", rng.sample(S, ctx.scale(40, 1000)), "drvrel")
    # reuse: many generations and structures in one long history
    L = []
    for _ in range(ctx.scale(8, 100)):
        h = [Ssc(1, G.script(rng, 2500)), P(1, pattern(rng)), P(2, "(a|{2}b|\\w{w}){2}"), E(1, 1), W(1, "w", 2, b"alpha\nbeta\ngamma\n"), A(1)]
        for _ in range(25):
            h += [Gn(rng.choice((1, 2)), 1, "c", rng.choice((-1, -1, 2)))] + ([A(rng.choice((1, 2)))] if rng.random() < .3 else [])
        L.append(h + [A(1), A(2)])
    # whatever was chosen before, what comes next is chosen from the same pattern
    for _ in range(ctx.scale(60, 900)):
        p = wide(rng)
        h = [Ssc(1, G.script(rng, 1500)), P(1, p), E(1, 1), W(1, "w", 2, b"alpha\nbeta\ngamma\n"), A(1), Gn(1, 1), Gn(1, 1), A(1), Gn(1, 1, rng.choice("ub"), 60), A(1)]
        L.append(h)
    judge(ctx, "repeated generation", L)
    # several sources on the same file
    L = []
    for _ in range(ctx.scale(20, 300)):
        f = rng.choice(FILES)
        src = {h: Sf(h, f) for h in (1, 2, 3)}
        h = [src[1], src[2]]
        up = {1, 2}
        for _ in range(rng.randint(4, 16)):
            k = rng.randint(1, 3)
            if k in up and rng.random() < .25:
                h.append(X(k))
                up.discard(k)
            elif k not in up:
                h.append(src[k])
                up.add(k)
            else:
                h.append(Rd(k, rng.choice((R(rng.randint(1, 12)), U(8), R(1000), R(1100), M(8, 1 << 40)))))
        L.append(h)
    judge(ctx, "sources on the same file", L)
    turns(ctx)
    # at the same time
    C = []
    for _ in range(ctx.scale(60, 600)):
        sh = pattern(rng)
        C.append((sh, [thread(rng, t, rng.randint(8, 20), shared=sh) for t in range(3)]))
    # threads that all use the same part of the library
    for p in ("\\w{w}{3}", "\\m{w}{3}", "[a-z\\u{e0}-\\u{ff}]{9}", "(a|{3}b|c){5}", "a{2,9}b?", "\\n\"\\u{1f}{3}", "((((x)))){2}", "(a|\\w{v})"):
        for m in ("c", "u", "b", "j"):
            ts = []
            for t in range(3):
                b = 4 * t
                ts.append([Ssc(b + 1, G.script(rng, 300)), P(b + 1, p), E(b + 1, b + 1), W(b + 1, "w", 2, b"alpha\nbeta\ngamma\n"), W(b + 1, "v", 1, b"q\n")] + [Gn(b + 1, b + 1, m, -1 if m == "c" else 60)] * 3 + [A(b + 1)])
            C.append((p, ts))
    for src in ("xorshift:%d", "chacha20:%032d", "zero"):
        C.append(("a", [[Sd(4 * t + 1, src % (t + 5) if "%" in src else src), Rd(4 * t + 1, R(1500)), Rd(4 * t + 1, U(8)), Rd(4 * t + 1, M(8, 1000)), Rd(4 * t + 1, BOOL), X(4 * t + 1)] for t in range(3)]))
    C.append(("a", [[P(4 * t + 1, x), P(4 * t + 2, x)] * 3 for t, x in enumerate(("(a", "[z-", "\\u{110000}"))]))
    C.append(("a", [[P(4 * t + 1, x), A(4 * t + 1), F(4 * t + 1)] * 3 for t, x in enumerate(("\\u{1f600}[a-c]{2,3}", "(\\w{abc}|{7}x)?", "\\m{\\}q}[\\n-z]"))]))
    threads(ctx, "concurrent threads (race detector)", C, 6, "drvtsan")
    threads(ctx, "concurrent threads (optimised build)", rng.sample(C, ctx.scale(40, 300)), 60, "drvrel")
