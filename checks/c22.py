"""C22: secrets are cleared. Specification: Wipe.tla, memory as blocks that hold
the secrets of handles or nothing. MC_Wipe shows for every history of handles in
few blocks that nothing of one is left in memory given back or shown by another;
in the implementation every block that is released and every handle that is
opened or closed is inspected, in optimised and unoptimised builds, and T_Wipe
requires what the specification says."""
from vlib import *
from randcase import R, U, M, BOOL, RELOAD, SEEK, opstr

STRUCTS = ("hashmap", "stack", "array", "pattern", "env", "wordlist", "markov", "error")


def desc(rng, path):
    r = rng.random()
    text = lambda n: bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789,.-_") for _ in range(n))
    if r < .25:
        return b"xorshift:%d" % rng.choice((rng.getrandbits(64) | 1, rng.getrandbits(60) | 1))
    if r < .5:
        return b"chacha20:" + text(rng.randint(12, 34)) + (b":" + text(rng.randint(0, 9)) if rng.random() < .4 else b"")
    if r < .65:
        return b"chacha20-argon2:" + b":".join([text(rng.choice((8, 20, 127, 128)))] + [text(rng.choice((0, 1, 8, 20, 127, 128))) for _ in range(rng.randint(0, 3))])
    if r < .75:
        return b"file:" + path
    if r < .85:
        return b"system"
    if r < .93:
        return b"zero"
    return rng.choice((b"", b"nothing", b"xorshift:", b"xorshift:0", b"chacha20", b"xorshift:99999999999999999999999"))


def use(rng):
    return rng.choice((lambda: R(rng.choice((0, 1, 7, 32, 500, 1023, 1024, 1025, 3000))), lambda: U(rng.choice((1, 2, 4, 8))),
                       lambda: M(8, rng.randint(1, 1 << 40)), lambda: BOOL, lambda: RELOAD))()


ARGON = 8200


def history(rng, path):
    ops, k = [], 0
    for n in range(rng.randint(1, 5)):
        d = desc(rng, path % n)         # no source twice: it would show the same again
        where = rng.choice(("caller", "heap"))
        ops.append({"e": "open", "d": list(d), "where": where})
        if d.startswith(b"chacha20-argon2:") and accepted(d) and rng.random() < .5:
            ops[-1]["cfg"] = derived(rng)
        if not accepted(d):
            continue
        seekable = d.startswith(b"chacha20")
        for _ in range(rng.randint(0, 5)):
            o = SEEK(rng.randint(0, 5000)) if seekable and rng.random() < .2 else use(rng)
            ops.append({"e": "use", "op": o})
        ops.append({"e": "end", "where": where})
    return ops


def derived(rng):
    """parameters: variant, blocks, passes, lanes. (Of blocks that do not fill all
    lanes some are never used, and hold whatever was there before.)"""
    lanes = rng.choice((1, 1, 2, 3, 4, 8))
    return "%d,%d,%d,%d" % (rng.randrange(3), 4 * lanes * rng.choice((2, 2, 3)), rng.choice((1, 2, 3)), lanes)


def accepted(d):
    """whether there will be a handle to use (the specification judges the answer)"""
    if d.startswith(b"xorshift:"):
        return d[9:].isdigit() and 0 < int(d[9:]) < 1 << 64
    if d.startswith(b"chacha20-argon2:"):
        f = d[16:].split(b":")
        return all(len(x) <= 127 for x in f[:3]) and (len(f) <= 3 or f[3:] == [b""])
    if d.startswith(b"chacha20:"):
        k, _, v = d[9:].partition(b":")
        return len(k) <= 32 and len(v) <= 8
    return d in (b"zero", b"system") or d.startswith(b"file:")


def word(o):
    if o["e"] == "open":
        c = "O" if o["where"] == "caller" else "N"
        if "cfg" in o:
            f = (bytes(o["d"])[16:].split(b":") + [None, None])[:3]
            return c + "@" + o["cfg"] + "," + ",".join("!" if x is None else hx(x) for x in f)
        return c + hx(bytes(o["d"]))
    if o["e"] == "use":
        return opstr(o["op"])
    return "c" if o["where"] == "caller" else "f"


def run(ctx):
    ctx.theorem("MC_Wipe", ctx.scale("MC_Wipe", "MC_Wipe_deep"))
    rng = ctx.rng
    os.makedirs(BUILD, exist_ok=True)
    b = build("drvrel", "drvdbg")
    with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
        for n in range(5):
            open("%s/f%d" % (tmp, n), "wb").write(bytes(rng.getrandbits(8) for _ in range(70000)))
        path = tmp.encode() + b"/f%d"
        hist = [history(rng, path) for _ in range(ctx.scale(700, 6000))]
        # each source alone, in both places, used and unused
        for d in (b"xorshift:12345678901234567", b"chacha20:" + b"0123456789abcdefghijKLMNOPQRSTUV", b"chacha20-argon2:pass:domain:token", b"file:" + path % 0, b"system", b"zero"):
            for where in ("caller", "heap"):
                for uses in ([], [R(100)], [R(1024), R(1)], [R(2000), U(8)], [U(8)] * 6):
                    hist.append([{"e": "open", "d": list(d), "where": where}] + [{"e": "use", "op": o} for o in uses] + [{"e": "end", "where": where}])
        for v in ("drvrel", "drvdbg"):
            obs = drive(b[v], ["wipe " + " ".join(map(word, h)) for h in hist])
            its = [{"build": v, "history": [bytes(o["d"]).decode("latin1") + "@" + o["where"] + ("; parameters " + o["cfg"] if "cfg" in o else "") if o["e"] == "open" else word(o) for o in h]} for h in hist]
            for it in its:
                it["history"] = [x.replace(tmp, "FILES") for x in it["history"]]
            ok = split_crashes(ctx, "clearing", its, obs)
            cases = [({"check": "handle", "ops": [{"e": o["e"], "d": o.get("d", []), "where": o.get("where", "")} for o in hist[i]], "ev": obs[i]["ev"]}, its[i]) for i in ok]
            ctx.validate("T_Wipe", cases, "clearing")
            obs = drive(b[v], ["wipes " + s for s in STRUCTS])
            its = [{"build": v, "structure": s} for s in STRUCTS]
            ok = split_crashes(ctx, "clearing", its, obs)
            ctx.validate("T_Wipe", [({"check": "struct", "ops": [], "ev": obs[i]["ev"]}, its[i]) for i in ok], "clearing of structures")


ASSUMPTIONS = ["copies of secrets in registers and on the stack are outside of the property",
               "pieces of secrets are recognised as eight bytes in a row with at least six different values"]
