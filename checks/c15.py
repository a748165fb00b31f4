"""C15: wordlists. Wordlist.tla defines the words of a file (MC_Wordlist:
all small files); T_Wl judges what is read and, for every value that a draw
can have, what a reference emits; T_Gen judges references inside of patterns
and faulty lists; T_Cli lists given on the command line."""
from vlib import *
import gencase as G
from checks import clicase


def files(ctx):
    rng = ctx.rng
    r = [b"", b"\n", b"\n\n\n", b"a", b"a\n", b"\na", b"a\n\nb\n\n\nc", b"\r\n", b"a\r\nb\r\n", b"a\0b\nc", b"\0", b" \n\t\n", b"x" * 5000, b"x" * 5000 + b"\n" + b"y" * 4096 + b"\n",
         b"\xff\xfe\n\xc3\n\x80", b"a b c\nd e", b"\xef\xbb\xbfbom\nx\n", b"a\n" * 3 + b"a", "ä\nö\nü漢字\n😀".encode()]
    # around the growth of the list of words, and buffer-sized files
    for n in (1, 2, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 1536, 1537):
        r.append(b"".join(b"%x\n" % (k + rng.randrange(3)) for k in range(n)))
        r.append(b"\n".join(b"%x" % k for k in range(n)))
    for n in (255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 12288):
        r.append(b"w" * n)
        r.append((b"abcdefg\n" * (n // 8 + 1))[:n])
    for _ in range(ctx.scale(150, 2500)):
        alpha = rng.choice((b"ab\n", b"abc\n\n\r \t", b"\n\0a", bytes(range(1, 256)), b"aaaaaaaa\n"))
        r.append(bytes(rng.choice(alpha) for _ in range(rng.choice((1, 2, 5, 20, 100, 700)))))
    return r


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_Wordlist")
    fs = files(ctx)
    drv = build("drv")["drv"]
    obs = drive(drv, ["wl " + hx(f) for f in fs] + ["wl !", "wl |"])
    items = [{"file": f.hex() if len(f) < 3000 else "%d bytes, sha256 %s" % (len(f), hashlib.sha256(f).hexdigest())} for f in fs] + [{"file": "a directory"}, {"file": "a pipe"}]
    recs = [{"kind": "file", "data": list(f), "o": 0} for f in fs] + [{"kind": "faulty", "data": [], "o": 0}] * 2
    ok = split_crashes(ctx, "words of a file", items, obs)
    ctx.validate("T_Wl", [(dict(recs[i], o=obs[i]), items[i]) for i in ok], "words of a file")

    # every value of the draw
    gs, recs = [], []
    lists = [f for f in fs if 0 not in f] + [b"\n".join(b"%d" % (k % 7) for k in range(30))]
    for f in rng.sample(lists, min(len(lists), ctx.scale(110, 1500))) + [b"only", b"a\nb", b"a\na\nb", b"\n" * 9, b""]:
        ws = [w for w in f.split(b"\n") if w]
        try:
            [w.decode("utf-8") for w in ws]
        except UnicodeDecodeError:
            continue
        if len(ws) > ctx.scale(300, 1100) or max([len(w) for w in ws] + [0]) > 400:
            continue
        m = G.smear(max(1, len(ws)))
        order = list(range(max(1, len(ws))))
        rng.shuffle(order)
        # (one draw for the group, one for the word)
        src = b"".join(bytes(8) + (k | (rng.getrandbits(64) & ~m)).to_bytes(8, "little") for k in order)
        gs.append((f, G.Gen("\\w{q}", src, [("b", 500, -5)] * len(order), [("q", rng.choice((1, 2, 3, 7)), f)])))
    obs = drive(drv, [g.line() for _, g in gs])
    items = [{"file": f.hex() if len(f) < 3000 else "%d bytes" % len(f), "stream": g.src.hex()[:4000]} for f, g in gs]
    ok = split_crashes(ctx, "choice of a word", items, obs)
    for i in ok:
        if obs[i]["parse"]:
            raise Broken("a word reference is not accepted")
    ctx.validate("T_Wl", [({"kind": "all", "data": list(gs[i][0]), "o": {"g": [{k: x[k] for k in ("ret", "n", "o", "ent")} for x in obs[i]["g"]]}}, items[i]) for i in ok], "choice of a word", heap="10g")

    # large lists
    fs, gs = [], []
    for n in ctx.scale((4096, 32769, 65535, 65536, 65537, 70001), (4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131072, 131073, 300000)):
        pre = rng.choice((b"", b"w", "é".encode(), b"zz "))
        eol = rng.choice((b"\n", b"\n", b"\n\n"))
        fs.append((n, pre, eol.join(pre + b"%d" % k for k in range(1, n + 1)) + rng.choice((b"", b"\n"))))
        at = {0, 1, n - 1, n - 2, n // 2}
        for k in range(1, 20):
            for v in {(1 << k) - 1, 1 << k, (1 << k) + 1} | {v + (1 << k) for v in rng.sample(range(n), 3)} | {n - 1 - (1 << k)}:
                if 0 <= v < n:
                    at |= {v, v % 256, v % 65536}
        m = G.smear(n)
        at = sorted(at)
        rng.shuffle(at)
        src = b"".join(bytes(8) + (k | (rng.getrandbits(64) & ~m)).to_bytes(8, "little") for k in at)
        gs.append((n, pre, at, G.Gen("\\w{q}", src, [("b", 60, -5)] * len(at), [("q", 2, fs[-1][2])])))
    obs = drive(drv, ["wl " + hx(f) for _, _, f in fs])
    items = [{"words": n, "prefix": p.decode(), "sha256": hashlib.sha256(f).hexdigest()} for n, p, f in fs]
    recs = []
    for i in split_crashes(ctx, "words of a large file", items, obs):
        n, ws = fs[i][0], obs[i]["words"]
        pick = sorted({k for k in set(gs[i][2]) | {len(ws) - 1} if k < len(ws)})
        recs.append(({"kind": "bigfile", "n": n, "prefix": list(fs[i][1]), "o": {"ret": obs[i]["ret"], "count": obs[i]["count"], "len": len(ws), "picks": [{"k": k + 1, "w": ws[k]} for k in pick]}}, items[i]))
    obs = drive(drv, [g.line() for _, _, _, g in gs])
    for i in split_crashes(ctx, "choice from a large list", items, obs):
        if obs[i]["parse"]:
            raise Broken("a word reference is not accepted")
        recs.append(({"kind": "big", "n": gs[i][0], "prefix": list(gs[i][1].decode().encode()), "vs": gs[i][2],
                      "o": {"g": [{"o": x["o"], "ent": x["ent"]} for x in obs[i]["g"]]}}, items[i]))
    ctx.validate("T_Wl", recs, "large lists")

    # inside of patterns, with faulty lists next to usable ones
    env = G.WLS + [("dir", 2, None), ("empty", 2, b""), ("nl", 2, b"\n\n"), ("bad", 2, b"\xff\n"), ("cr", 2, b"a\r\nb\r\n"), ("dup", 2, b"x\nx\ny\n"), ("w2", 1, b"1\n22\n333"),
                   ("é", 2, b"accent\n"), ("long name with spaces", 2, b"lnws\n"), ("w", 2, G.WL)]
    gs = []
    pats = ["\\w{w}", "\\w{w}-\\w{u}", "(\\w{w}|\\w{w2}){3}", "\\w{dir}", "\\w{empty}", "\\w{nl}", "\\w{bad}", "\\w{zz}", "\\w{}", "(\\w{dir}|x)", "\\w{dup}{4}", "\\w{cr}", "\\w{é}",
            "\\w{long name with spaces}", "\\w{w}?", "\\w{w2}{2,5}", "\\w{W}", "\\w{w }", "a(b\\w{u}){3}", "\\w{dir}?", "\\w{dir}{0}", "(\\w{empty}|{3}y){3}", "{0}\\w{zz}|k"]
    for p in pats * ctx.scale(6, 60):
        e = list(env)
        rng.shuffle(e)
        gs.append(G.Gen(p, G.script(rng), [(rng.choice("cub"), lim, -5) for lim in (600, 600)], e))
    for _ in range(ctx.scale(60, 1500)):
        # a name that is defined again
        e = [("w", 2, b"a\nb\n"), ("w", 2, b"c\nd\ne\n"), ("v", 2, b"f\n"), ("w", rng.choice((1, 2, 3)), rng.choice((b"g\nh\ni\nj\n", None, b"")))][:rng.randint(1, 4)]
        gs.append(G.Gen(rng.choice(("\\w{w}", "\\w{w}\\w{v}", "(\\w{v}|\\w{w}){3}")), G.script(rng, 64), [("b", 100, -5)] * 2, e))
    G.check(ctx, "word references", "bounds", gs)
    G.check(ctx, "word references (choices)", "entropy", gs)
    # given on the command line
    invs = []
    for _ in range(ctx.scale(30, 300)):
        f = rng.choice(lists)
        if len(f) > 4000 or any(len(w) > 60 for w in f.split(b"\n")):
            continue
        try:
            f.decode("utf-8")
        except UnicodeDecodeError:
            continue
        invs.append(clicase.Inv(["-r", "file:rnd", "-w", "q:list.txt", "-a", "3"] + rng.choice(([], ["-j"], ["-z"], ["-e"])) + [rng.choice(("\\w{q}", "\\w{q}{2}", "x\\w{q}|\\w{q}", "\\w{r}"))],
                                {"list.txt": f, **clicase.rnd_file(rng, 2048)}))
    clicase.check(ctx, "wordlists on the command line", "all", invs)
