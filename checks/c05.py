"""C05: the UTF-8 codec. Specification Utf8.tla (table 3-7 of the Unicode
standard), theorems in MC_Utf8, trace validation in T_Utf8."""
import itertools
from vlib import *
import pgen

REPS = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef,
        0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff]
EDGE = [0, 1, 0x7e, 0x7f, 0x80, 0x81, 0x7fe, 0x7ff, 0x800, 0x801, 0xd7fe, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdfff, 0xe000,
        0xfffe, 0xffff, 0x10000, 0x10001, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0x1fffff, 0x200000, 0x7fffffff]


def scal(cp):
    return cp < 0x110000 and not 0xd800 <= cp < 0xe000


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_Utf8", ctx.scale("MC_Utf8", "MC_Utf8_deep"))
    b = build("drv")["drv"]
    # decoding
    ins = []
    for n in (0, 1):
        ins += [bytes(x) for x in itertools.product(range(256), repeat=n)]
    ins += [bytes((f, s)) for f in range(256) for s in (0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff)]
    ins += [bytes(x) for x in itertools.product(REPS, repeat=2)]
    ins += [bytes(x) for x in itertools.product([r for r in REPS if r >= 0xe0], REPS, REPS)]
    for f in (0xf0, 0xf1, 0xf3, 0xf4):
        ins += [bytes((f,) + x) for x in itertools.product((0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc0), repeat=3)]
    full = list(ins)
    for _ in range(ctx.scale(3000, 30000)):
        s = bytearray()
        for _ in range(rng.choice([1, 2, 3, 5, 9])):
            r = rng.random()
            if r < .3:
                s += bytes([rng.randrange(128)])
            elif r < .85:
                cp = rng.choice(EDGE[:-3] + [rng.randrange(0x110000), rng.randrange(0x800), rng.randrange(0x10000)])
                if scal(cp):
                    s += chr(cp).encode()
            else:
                s += pgen.badutf8(rng)
        if rng.random() < .2 and s:
            s = s[:-1]
        ins.append(bytes(s))
    cases, lines, items = [], [], []

    def dec(s, lim, w):
        lines.append("udec %d %d %s" % (lim, w, hx(s)))
        cases.append({"kind": "d", "bytes": list(s), "lim": lim, "widths": w})
        items.append({"decode": s.hex(), "limit": lim, "widths": w})
    for k, s in enumerate(ins):
        dec(s, len(s) + 1, k & 1)
        if k >= len(full):
            lim = rng.randint(0, len(s))
            dec(s, lim, 1)
            if k % 4 == 0:
                for lim in range(0, min(8, len(s) + 1)):
                    dec(s, lim, (k >> 2) & 1)
    # encoding into buffers
    for k in range(ctx.scale(3000, 30000)):
        n = rng.choice([0, 1, 1, 2, 3, 5, 8])
        cps = [rng.choice(EDGE + [rng.randrange(0x110000), rng.randrange(0x800), rng.randrange(0x80)] * 8) for _ in range(n)]
        total = sum(len(chr(c).encode()) if scal(c) else 1 for c in cps)
        op = rng.choice([0, 0, 0, 1, 3])
        lim = op + max(0, total + rng.choice([-6, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 9]))
        if rng.random() < .2:
            lim = rng.randint(op, 8 + op)
        ip = rng.choice([0, 0, 0, min(1, n), n])
        lines.append("uenc %d %d %d %s" % (lim, op, ip, " ".join(map(str, cps))))
        cases.append({"kind": "e", "cps": cps, "lim": lim, "op0": op, "ip0": ip})
        items.append({"encode": cps, "size": lim, "at": op, "from": ip})
    # single codepoints
    step = 512
    if ctx.thorough:
        ranges = [(lo, lo + step - 1) for lo in range(0, 0x110400, step)]
    else:
        los = sorted(set(list(range(0, 0x1000, step)) + [0xd600, 0xd800, 0xda00, 0xdc00, 0xde00, 0xe000, 0xfe00, 0x10000, 0x10fe00, 0x110000, 0x1ffe00, 0x200000]
                     + [rng.randrange(0, 0x110000 // step) * step for _ in range(30)]))
        ranges = [(lo, lo + step - 1) for lo in los]
    for lo, hi in ranges:
        lines.append("uencr %d %d" % (lo, hi))
        cases.append({"kind": "r", "lo": lo, "hi": hi})
        items.append({"encode each of": [lo, hi]})
        if scal(lo) and scal(hi) and hi < 0x110000:
            s = "".join(map(chr, range(lo, hi + 1))).encode()
            lines.append("udec %d 1 %s" % (step + 1, hx(s)))
            cases.append({"kind": "R", "lo": lo, "hi": hi})
            items.append({"decode each of": [lo, hi]})
    for c in (0x7ffffffe, 0x3fffffff, 0x40000041):
        lines.append("uencr %d %d" % (c, c))
        cases.append({"kind": "r", "lo": c, "hi": c})
        items.append({"encode": c})
        cases[-1]["hi"] = c
    obs = drive(b, lines)
    ok = split_crashes(ctx, "utf8", items, obs)
    ctx.validate("T_Utf8", [(dict(cases[i], o=obs[i]), items[i]) for i in ok], "utf8")
