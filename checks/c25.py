"""C25: everything taken is given back. Specification: Owners.tla, a ledger of what
groups of handles hold. MC_Owners shows that it objects to a library that names
its things exactly if something is lost; its histories and longer random ones are
replayed into the implementation, where memory and open files are counted after
each operation, and T_Own requires the ledger of each to balance."""
from vlib import *
import gencase as G


def op(k, h, e="", n=0, w=""):
    """an operation, and the word for the driver"""
    return {"k": k, "h": h, "e": e, "n": n}, "%s%d%s" % (k, h, "=" + w if w else "")


DESCS = (b"xorshift:5", b"chacha20:key", b"zero", b"system", b"file:%s")
BAD = (b"xorshift:", b"xorshift:0", b"file:/nonexistent/file", b"chacha20:" + b"k" * 33, b"chacha20:k:123456789", b"nothing", b"", b"chacha20-argon2:" + b"a" * 128)
GOOD_P = ("", "abc", "a|b|{3}c", "[a-z]{2,9}?x", "(a(b(c|d)e)f){2}", "\\w{w}\\m{v}", "\\u{1f600}[\\n-\\u{ff}]", "((((x))))|()", "\\w{a long name of a list}{2}", "\\m{w}|\\w{v}|\\m{w}")
BAD_P = ("(", "a{", "[a-", "(a|b(c[d", "\\w{abc", "\\u{110000}", "(a\\w{x}[bc]{2}(d", "a)", "{", "\\", "[abc]{3,2}x(", "\\m{w}\\m{v", "a{1,2", "x\\u{", "\\wq", "(\\w{w}|[a-z]{2,3}", "a{2}{3}")
LISTS = (b"ab\ncd\n", b"one", b"", b"\n\n", b"a\nb\xff\nc\n", b"abab\nbaba\nabba\n", None)


def source(rng, h, where, path):
    return op("S" if where == "s" else "O", h, w=hx(rng.choice(DESCS).replace(b"%s", path)))


def big(rng):
    return b"".join(b"word%d\n" % rng.getrandbits(rng.randint(2, 20)) for _ in range(rng.choice((3, 200, 257, 600))))


def generation(rng, p, e):
    m = rng.choice("cccubj")
    n = rng.choice((-1, -1, 0, 1, 5)) if m == "c" else rng.choice((0, 1, 5, 100))
    return op("g", p, "E%d" % e, w="%d:%s:%d" % (e, m, n))


def history(rng, path, n):
    """any operations that a caller may use, on a few handles of each kind"""
    res, up, lend, own = [], {}, {}, {}      # up: kind -> slots; lend: source -> environment that draws from it
    usable = set()                           # patterns to generate from
    is_up = lambda k, h: h in up.setdefault(k, set())

    def close(k, h):
        up[k].discard(h)
        if k == "E":
            res.append(op("t" if own.pop(h, False) else "e", h))
            for s in [s for s in lend if lend[s] == h]:
                del lend[s]
        else:
            res.append(op({"S": "x", "O": "c", "P": "f", "L": "k", "M": "z", "H": "j", "K": "v", "A": "w", "R": "s"}[k], h, w="0" if k == "H" and rng.random() < .5 else ""))

    for _ in range(n):
        k = rng.choice("SSOPPPEEELMHKAR" if rng.random() < .5 else "SPEEPE")
        h = rng.randint(1, 3)
        if not is_up(k, h):
            ok = True
            if k in "SO":
                if rng.random() < .25:
                    res.append(op(k, h, w=hx(rng.choice(BAD))))
                    ok = False
                elif k == "S" and rng.random() < .1:
                    res.append(op("Q", h))
                else:
                    res.append(source(rng, h, k.lower(), path))
            elif k == "P":
                t = rng.choice(GOOD_P if rng.random() < .6 else BAD_P) if rng.random() < .8 else G.random_pattern(rng, depth=2)
                fin = "f"
                if rng.random() < .6:
                    res.append(op("P", h, w=hx(t)))
                else:
                    fin = rng.choice("ffx")
                    res.append(op("p", h, w="%s:%s:%s" % (rng.choice("no"), fin, hx(t.encode("ascii", "replace")))))
                (usable.add if t in GOOD_P and fin == "f" else usable.discard)(h)
            elif k == "E":
                s = [s for s in up.get("S", ()) if s not in lend]
                if not s:
                    continue
                s = rng.choice(s)
                if rng.random() < .5:
                    res.append(op("E", h, "S%d" % s, w=str(s)))
                    lend[s] = h
                else:
                    res.append(op("T", h, "S%d" % s, w=str(s)))
                    up["S"].discard(s)
                    own[h] = True
            elif k == "L":
                d = rng.choice(LISTS) if rng.random() < .8 else big(rng)
                if rng.random() < .5:
                    res.append(op("L", h, w="l:%d:%d:%s" % (rng.randint(0, 1), rng.randint(1, 4), "!" if d is None else hx(d))))
                else:
                    res.append(op("L", h, w="i:%d:%d:%s" % (rng.randint(0, 1), rng.randint(1, 4), "!" if d is None else hx(d))))
                    if rng.random() < .7:
                        res.append(op("l", h))
                        if rng.random() < .6 and d is not None:
                            res.append(op("m", h))
            elif k == "M":
                res.append(op("M", h, w=str(rng.randint(1, 5))))
            elif k == "K":
                res.append(op("K", h, w=str(rng.choice((1, 4, 24, 100, 600, 5000)))))
            elif k == "A":
                res.append(op("A", h, w=str(rng.choice((0, 1, 7, 64)))))
            elif k == "R":
                res.append(op("R", h, w=str(rng.choice((0, 1, 3, 40)))))
            else:
                res.append(op("H", h))
            if ok:
                up[k].add(h)
            continue
        if rng.random() < .22 and not (k == "S" and h in lend):
            close(k, h)
        elif k in "SO":
            res.append(op("r", h, k + str(h), w="%s:%d" % (k.lower(), rng.choice((0, 1, 50, 1024, 3000)))))
        elif k == "P" and up.get("E") and h in usable:
            res.append(generation(rng, h, rng.choice(sorted(up["E"]))))
        elif k == "E":
            if rng.random() < .6:
                d = rng.choice(LISTS) if rng.random() < .85 else big(rng)
                res.append(op("W", h, w="%s:%d:%s" % (hx(rng.choice(("w", "v", "w", "a long name of a list"))), rng.randint(1, 3), "!" if d is None else hx(d))))
            elif up.get("P", set()) & usable:
                res.append(generation(rng, rng.choice(sorted(up["P"] & usable)), h))
        elif k == "M":
            res.append(op("a", h, w=hx(bytes(rng.getrandbits(8) for _ in range(rng.choice((0, 1, 3, 10, 60, 200)))))))
        elif k == "H":
            for _ in range(rng.choice((1, 1, 5, 80))):
                res.append(op(rng.choice("iiiiddy"), h, w=hx("key%d" % rng.randint(0, rng.choice((3, 200))))))
        elif k == "K":
            res.append(op(rng.choice("uuo"), h, w=str(rng.choice((1, 2, 30, 300, 1500)))))
        elif k == "A":
            res.append(op(rng.choice("bbn"), h, w=str(rng.choice((1, 2, 30, 300)))))
    # pops take at most what is there
    have, out = {}, []
    for o, w in res:
        if o["k"] in "KA":
            have[o["k"], o["h"]] = 0
        if o["k"] in "ub":
            have["K" if o["k"] == "u" else "A", o["h"]] += int(w.split("=")[1])
        if o["k"] in "on":
            kk = ("K" if o["k"] == "o" else "A", o["h"])
            n = min(have[kk], int(w.split("=")[1]))
            have[kk] -= n
            w = "%s=%d" % (w.split("=")[0], n)
        out.append((o, w))
    res[:] = out
    # in the end everything is closed, in any order
    rest = [(k, h) for k in up for h in up[k]]
    rng.shuffle(rest)
    rest.sort(key=lambda x: x[0] in "SO")
    for k, h in rest:
        close(k, h)
    return res


def contexts(rng):
    res = []
    n = rng.randint(1, 3)
    for h in range(1, n + 1):
        own = rng.randint(0, 15)
        res.append(op("C", h, n=own, w=str(own)))
    has = set()
    for _ in range(rng.randint(1, 30)):
        h, at = rng.randint(1, n), rng.randint(0, 3)
        if (h, at) in has:
            k = rng.choice("rrf")
        else:
            k = rng.choice("mcr")
        (has.discard if k == "f" else has.add)((h, at))
        res.append(op("q", h, k, at, "%s:%d" % (k, at)))
    for h, at in sorted(has):
        res.append(op("q", h, "f", at, "f:%d" % at))
    return res


def behaviours(ctx):
    r = ctx.theorem("MC_Owners")
    ctx.theorem("MC_Owners", ctx.scale("MC_Owners_faulty", "MC_Owners_faulty_deep"))
    return [re.findall(r'<<"(\w)", (\d+), "(\w*)", "(\w*)">>', m) for m in re.findall(r"@@hist (.*)", r.out)]


def replay(rng, b, path):
    """the operations of the specification, with things for them to work on"""
    res = []
    for k, h, e, n in b:
        h = int(h)
        if k == "S":
            w = hx(rng.choice(BAD)) if n == "fail" else hx(rng.choice(DESCS[:4])) if h == 1 else hx(b"file:" + path)
        elif k == "P":
            w = hx(rng.choice(BAD_P)) if n == "fail" else hx(rng.choice(("\\w{a}\\m{b}", "\\w{b}|\\w{a}", "\\m{a}{2}", "x")))
        elif k in "ET":
            w = e[1:]
        elif k == "W":
            w = "%s:2:%s" % (hx(n), hx(rng.choice((b"ab\ncd\n", big(rng)))))
        elif k == "g":
            w = "1:c:-1"
        else:
            w = ""
        res.append(op(k, h, e, 0, w))
    return res


def judge(ctx, what, hist):
    b = build("drv")["drv"]
    lines = ["own " + " ".join(w for _, w in h) for h in hist]
    obs = drive(b, lines)
    its = [{"history": l[:20000]} for l in lines]
    ok = split_crashes(ctx, what, its, obs)
    return ctx.validate("T_Own", [({"ops": [o for o, _ in hist[i]], "r": obs[i]["r"]}, its[i]) for i in ok], what)


def run(ctx):
    rng = ctx.rng
    behs = behaviours(ctx)
    if len(behs) < 1000:
        raise Broken("only %d histories of MC_Owners" % len(behs))
    with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
        path = (tmp + "/source").encode()
        with open(path, "wb") as f:
            f.write(bytes(rng.getrandbits(8) for _ in range(1 << 17)))
        judge(ctx, "replayed histories", [replay(rng, b, path) for b in (behs if ctx.thorough else rng.sample(behs, 1500))])
        judge(ctx, "random histories", [history(rng, path, rng.choice((8, 20, 50, 120))) for _ in range(ctx.scale(1200, 12000))])
        # each way to end a pattern, at each place
        S = []
        for t in GOOD_P + BAD_P + tuple(G.random_pattern(rng, depth=3) for _ in range(ctx.scale(10, 100))):
            u = t.encode()
            for n in range(0, len(u) + 1):
                S.append([op("P", 1, w=hx(u[:n])), op("f", 1), op("p", 2, w="%s:x:%s" % (rng.choice("no"), hx(u[:n]))), op("f", 2)])
        judge(ctx, "unfinished patterns", S if ctx.thorough else rng.sample(S, min(len(S), 500)))
        # sizes at which containers grow
        S = []
        for n in (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000):
            S.append([op("K", 1, w=str(rng.choice((1, 8, 48)))), op("u", 1, w=str(n)), op("v", 1), op("A", 1, w="0"), op("b", 1, w=str(n)), op("w", 1), op("R", 1, w=str(n)), op("s", 1)])
            S.append([op("H", 1)] + [op("i", 1, w=hx("k%d" % (k % max(1, n - 3)))) for k in range(n)] + [op("j", 1)])
            S.append([op("M", 1, w=str(1 + n % 4))] + [op("a", 1, w=hx(bytes(rng.getrandbits(8) for _ in range(5)))) for k in range(min(n, 300))] + [op("z", 1)])
            S.append([op("L", 1, w="l:%d:2:%s" % (n % 2, hx(b"w%d\n" % n * n))), op("k", 1)])
        judge(ctx, "growth", S)
        judge(ctx, "contexts", [contexts(rng) for _ in range(ctx.scale(300, 3000))])
