"""C09: sources opened from descriptions. Specification: Source.tla (grammar of
descriptions, streams as functions of a position: ChaCha.tla, Xorshift.tla on
machine words in 16-bit limbs, validated in MC_Crypto against published answers),
Rand.tla. T_Rand (check "desc") requires acceptance exactly as described and every
byte, however it is read and wherever it is sought."""
import tempfile
from vlib import *
from randcase import *


def cut(rng, total, mx=1024):
    ops, n = [], 0
    while n < total:
        k = min(rng.choice((1, 3, 7, 8, 60, 63, 64, 65, 128, 300, rng.randint(1, mx))), total - n)
        ops.append(R(k) if rng.random() < .8 or k not in (1, 2, 4, 8) else U(k))
        n += k
    return ops


def run(ctx):
    rng = ctx.rng
    ctx.theorem("MC_Crypto")
    cases = []

    def add(d, ops=(), data=None):
        cases.append((d if isinstance(d, bytes) else d.encode(), list(ops), data))
    txt = lambda n: "".join(rng.choice("abcXYZ019 -_/\u00e9") for _ in range(n)).encode()[:n].decode("utf8", "ignore")
    # accepted or refused
    for d in ["", "zero", "zero ", "zero:", "Zero", "zer", "system", "system:", "sys", "random", "file", "file:", "xorshift", "xorshift:", "chacha20", "chacha20-argon2", "zero\n",
              "chacha20-argon", "xorshift:0", "xorshift:00", "xorshift:-1", "xorshift:+1", "xorshift: 1", "xorshift:1 ", "xorshift:1x", "xorshift:0x10", "xorshift:abc",
              "xorshift:18446744073709551615", "xorshift:18446744073709551616", "xorshift:99999999999999999999999", "xorshift:000000000000000000000000001", "xorshift:1.5",
              "xorshift:9223372036854775808", "xorshift:1:2"]:
        add(d, [R(16), R(1010), R(9)] if not d.startswith("system") else [])
    for n in list(range(0, 5)) + [16, 30, 31, 32, 33, 34, 64, 200]:
        add("chacha20:" + "k" * n, [R(40)])
        for m in (0, 1, 6, 7, 8, 9, 10, 40):
            add("chacha20:" + "K" * n + ":" + "i" * m, [R(40)])
    add("chacha20:a:b:c", [R(20)])
    add("chacha20::", [R(20)])
    add("chacha20:::", [R(20)])
    add(b"chacha20:\xff\x80\x01:\xfe\x7f", [R(70)])
    # streams
    for _ in range(ctx.scale(60, 800)):
        seed = rng.choice((1, 2, 255, 1 << 63, (1 << 64) - 1, rng.getrandbits(64) or 1, rng.getrandbits(32) or 1, rng.randint(1, 99999)))
        add("xorshift:%d" % seed, cut(rng, rng.choice((40, 1024, 1030, 2500))))
        if rng.random() < .3:
            add("xorshift:%d" % seed, [R(5), R(8 * rng.randint(129, 300)), R(16), R(1010)])
        if rng.random() < .3:
            # last of all a large read ending inside a number
            add("xorshift:%d" % seed, [R(5), R(8 * rng.randint(129, 300)), R(16)][:rng.randint(0, 3)] + [R(8 * rng.randint(129, 300) + rng.randint(1, 7))])
    for _ in range(ctx.scale(60, 800)):
        d = "chacha20:" + txt(rng.randint(0, 32)).replace(":", "") + ("" if rng.random() < .5 else ":" + txt(rng.randint(0, 8)))
        add(d, cut(rng, rng.choice((64, 200, 1024, 1100, 2100))))
        # sought positions; large reads leave the source anywhere
        ops = []
        for _ in range(rng.randint(1, 4)):
            p = rng.choice((0, 1, 63, 64, 65, 127, 1023, 1024, 1025, rng.randrange(5000), (1 << 32) - rng.randrange(70), (1 << 38) - rng.randrange(140), rng.getrandbits(45),
                            (1 << 38) + rng.randrange(999), rng.getrandbits(63)))
            ops += [SEEK(p), R(rng.randint(1, 100))]
            if rng.random() < .5:
                ops += [R(rng.randint(1025, 1300)), R(rng.randint(1, 30)), R(rng.randint(900, 1024)), R(3)]
        add(d, ops)
    for _ in range(ctx.scale(6, 40)):
        n = rng.randint(1025, 1100)
        add("chacha20:odd", [R(1), R(n), R(1), R(n + 1), R(1020), R(40), R(1025), R(1024)])
    add("zero", cut(rng, 3000))
    with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
        for k in range(ctx.scale(10, 60)):
            data = bytes(rng.randrange(256) for _ in range(1024 * rng.randint(2, 5) + rng.randrange(50)))
            p = os.path.join(tmp, "f%d" % k)
            open(p, "wb").write(data)
            n = 1024 * (len(data) // 1024) - 1024
            add("file:" + p, cut(rng, n), data)
        add("file:" + tmp + "/missing", [R(3)])
        add("file:" + tmp + "/sub/missing", [R(3)])
        descs(ctx, "stream", cases)
        descs(ctx, "stream (optimised build)", rng.sample(cases, ctx.scale(80, 600)), "drvrel")
