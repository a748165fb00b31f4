"""Invocations of the program, judged by T_Cli."""
import tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import gencase as G
import pgen


class Inv:
    """argv: list of str/bytes; files: {path: bytes, or None for a directory};
    home, xdg: paths or None."""

    def __init__(self, argv, files=None, home=None, xdg=None):
        self.argv = [a.encode() if isinstance(a, str) else a for a in argv]
        self.files = {(k.encode() if isinstance(k, str) else k): v for k, v in (files or {}).items()}
        self.home, self.xdg = home, xdg

    def rec(self, check, o):
        o1 = lambda x: [] if x is None else [list(x.encode())]
        return {"check": check, "argv": [list(a) for a in self.argv], "home": o1(self.home), "xdg": o1(self.xdg),
                "files": [{"p": list(k), "d": list(v or b""), "dir": 1 if v is None else 0} for k, v in self.files.items()], "o": o}

    def item(self):
        show = lambda v: None if v is None else v.decode("latin1") if len(v) < 1500 and all(c < 127 for c in v) else v.hex() if len(v) < 5000 else v[:64].hex() + "...%d" % len(v)
        return {"argv": [a.decode("latin1") for a in self.argv], "files": {k.decode("latin1"): show(v) for k, v in self.files.items()},
                "home": self.home, "xdg": self.xdg}


def invoke(exe, inv, tmp, timeout=20):
    d = tempfile.mkdtemp(dir=tmp)
    try:
        for k, v in inv.files.items():
            p = os.path.join(os.fsencode(d), k)
            os.makedirs(os.path.dirname(p) if v is not None else p, exist_ok=True)
            if v is not None:
                open(p, "wb").write(v)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1"}
        if inv.home is not None:
            env["HOME"] = inv.home
        if inv.xdg is not None:
            env["XDG_CONFIG_PATH"] = inv.xdg
        p = subprocess.Popen([b"passgen"] + inv.argv, executable=exe, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return {"crash": -14, "why": "timeout"}
        if p.returncode == 99:
            m = re.search(rb"AddressSanitizer: [^\n]*", err)
            return {"crash": 99, "why": m.group(0).decode("latin1") if m else err[-200:].decode("latin1")}
        return {"exit": p.returncode, "out": list(out), "err": list(err[:20000])}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ctx, what, check, invs, variant="cliasan", batch=20000):
    exe = build(variant)[variant]
    with tempfile.TemporaryDirectory(dir=BUILD) as tmp, ThreadPoolExecutor(8) as ex:
        obs = list(ex.map(lambda v: invoke(exe, v, tmp), invs))
    its = [v.item() for v in invs]
    ok = split_crashes(ctx, what, its, obs)
    return ctx.validate("T_Cli", [(invs[i].rec(check, obs[i]), its[i]) for i in ok], what, batch=batch)


def rnd_file(rng, n=8192):
    return {"rnd": G.script(rng, n).ljust(n, b"\0")}


def wl_files():
    return {n + ".txt": d for n, _, d in G.WLS}


def wl_args():
    r = []
    for n, lv, _ in G.WLS:
        r += ["-M", str(lv), "-w", "%s:%s.txt" % (n, n)]
    return r


def small_pattern(rng):
    return G.random_pattern(rng, depth=2)


BIG = ["[a-z]{20}", "[a-zA-Z0-9]{30}", "(a|b|{5}c){12}", "x", "", "(a?){40}", "[a-z]{0,1000000}", "\\w{w}{9}", "\\m{w}{4}", "[\\u{0}-\\u{10FFFF}]{9}", "{3}a|{4294967295}b", "[a-f]{120}",
       "[a-z]{210}", "[ab]{250}"]


def entropy(ctx):
    rng = ctx.rng
    invs = []
    for p in BIG + [small_pattern(rng) for _ in range(ctx.scale(60, 1200))]:
        for fl in (["-e"], ["-e", "-j"], ["--entropy", "-z"]):
            if len(fl) == 1 or rng.random() < .6:
                invs.append(Inv(["-r", "file:rnd"] + fl + ["-a", str(rng.choice((1, 2, 3)))] + wl_args() + ["--", p], {**rnd_file(rng), **wl_files()}))
    check(ctx, "printed entropy", "all", invs)


def json_docs(ctx):
    rng = ctx.rng
    invs = []
    ps = ["[\\u{0}-\\u{ff}]{9}", "\"\\n\\t\\\\", "[\\u{0}-\\u{10FFFF}]{5}", "a|\"", "\\u{0}x", "", "[\\u{0}-\\u{22}]{30}", "[\\u{0}-\\u{1f}]{45}", "\\w{u}", "\\m{u}"] * ctx.scale(3, 30)
    for p in ps + [small_pattern(rng) for _ in range(ctx.scale(60, 1200))]:
        invs.append(Inv(["-r", "file:rnd", rng.choice(("-j", "--json", "-zj"))] + (["-e"] if rng.random() < .4 else []) + ["-a", str(rng.choice((1, 2, 3, 7)))] + wl_args() + ["--", p],
                        {**rnd_file(rng), **wl_files()}))
    check(ctx, "JSON document", "all", invs)


def known(ctx):
    """the inputs of the known findings, always looked at"""
    if ctx.prop == "C03":
        check(ctx, "entropy beyond the range of doubles", "all", [Inv(["-r", "zero", "-e", "[a-z]{230}"])])
    if ctx.prop == "C14":
        check(ctx, "entropy beyond the range of doubles", "all", [Inv(["-r", "zero", "-e", "-j", "[a-z]{230}"])])


def short_sources(ctx):
    rng = ctx.rng
    invs = []
    for n in (0, 1, 1023, 1024, 1025, 2047, 2048, 3000, 4096):
        for p, a in (("[a-z]{8}", 1), ("[a-z]{8}", 20), ("[a-z]{30}", 9), ("[a-z]{100}", 5), ("a", 3), ("(x|y){60}", 7)):
            data = bytes(rng.randrange(256) for _ in range(n))
            for fl in ([], ["-j"], ["-z"]):
                if fl == [] or rng.random() < .4:
                    invs.append(Inv(["-r", "file:rnd", "-a", str(a)] + fl + [p], {"rnd": data}))
    check(ctx, "sources that run out", "short", invs)
    check(ctx, "sources that run out (sandboxed)", "short", rng.sample(invs, ctx.scale(20, 60)), "cli")


def master(ctx):
    rng = ctx.rng
    x = lambda: "".join(rng.choice("abcxyz019 :/.\u00e9") for _ in range(rng.choice((0, 1, 3, 8, 20, 64, 140))))
    invs = [Inv(["-m", "mymasterpass", "-d", "example.com", "-t", "username", "-p", "apple2"]), Inv(["-m", "", "x[a-z]{9}"]), Inv(["-m", "a", "-d", "b", "[a-z]{9}"]),
            Inv(["-m", "a", "-t", "b", "[a-z]{9}"])]
    # long fields: only the memory of the arguments bounds them
    invs.append(Inv(["-m", "m" * 299 + "1", "-d", "d" * 256, "-t", "t" * 513, "[a-z]{9}"]))
    invs.append(Inv(["-m", "m" * 100, "-d", "d" * 1025, "-t", "tt", "[a-z]{9}"]))
    for _ in range(ctx.scale(4, 60)):
        a = [rng.choice((["-m", x()], ["--master=" + x()]))]
        if rng.random() < .7:
            a.append(rng.choice((["-d", x()], ["--domain", x()])))
        if rng.random() < .7:
            a.append(rng.choice((["-t" + (x() or "q")], ["--token", x()])))
        rng.shuffle(a)
        invs.append(Inv(sum(a, []) + ["-a", str(rng.choice((1, 3)))] + ["--", rng.choice(("[a-z]{12}", "(a|b|c){7}", "[a-zA-Z0-9]{4}-[0-9]{2}"))]))
    check(ctx, "master passphrase", "master", invs)

# ------------------------------------------------------------------- options
LONG = {"a": "amount", "h": "help", "p": "preset", "D": "depth", "v": "version", "z": "null", "e": "entropy", "w": "wordlist", "r": "random", "l": "list",
        "P": "define-preset", "j": "json", "M": "markov-length", "m": "master", "d": "domain", "t": "token"}
ARG = set("apDwrPMmdt")
PRESETS = ["apple1", "apple2", "uuid", "edge", "firefox"] + ["proquint%d" % n for n in (16, 32, 48, 64, 80, 96, 112, 128)]


def spell(rng, opts):
    """opts: list of (letter, value or None); in any of their forms"""
    argv, k = [], 0
    while k < len(opts):
        c, v = opts[k]
        k += 1
        r = rng.random()
        if r < .45:
            long = LONG[c]
            if rng.random() < .3:
                n = rng.randint(1, len(long))
                while sum(l.startswith(long[:n]) for l in LONG.values()) > 1 and n < len(long) and rng.random() < .97:
                    n += 1
                long = long[:n]
            if c in ARG:
                argv += ["--%s=%s" % (long, v)] if rng.random() < .5 else ["--" + long, v]
            else:
                argv.append("--" + long)
        else:
            w = "-" + c
            while c not in ARG and k < len(opts) and rng.random() < .5:
                c, v = opts[k]
                k += 1
                w += c
            if c in ARG:
                argv += [w + v] if v and rng.random() < .4 else [w, v]
            else:
                argv.append(w)
    return argv


def values(rng, c):
    if c == "a":
        return rng.choice(("1", "2", "3", "5", "12", "007", "+2", "0", "-1", "", "x", "3x", "2147483647x", "99999999999")) if rng.random() < .35 else rng.choice("1234")
    if c == "M":
        return rng.choice(("1", "2", "4", "255", "256", "0", "-2", "", "two", "9")) if rng.random() < .5 else rng.choice("123")
    if c == "D":
        return rng.choice(("1", "2", "3", "10", "100", "0", "x", "1024"))
    if c == "p":
        return rng.choice(PRESETS + ["mine", "mine", "nosuch", "", "appl", "UUID"])
    if c == "P":
        return rng.choice(("mine:[xyz]{3}", "mine:(a|b)c", "other:q", "apple1:[0-9]{2}", "mine:", "noColon", ":x", "mine:a:b|:c", "bad:(a", "uuid:u\u00fc"))
    if c == "r":
        return rng.choice(("file:rnd",) * 7 + ("zero", "zero", "xorshift:17", "xorshift:1", "file:missing", "nosuch", "", "system", "xorshift:", "xorshift:x", "chacha20:00000000000000000000000000000000000000000000000000000000000000aa", "dice"))
    if c == "w":
        return rng.choice(("w:w.txt",) * 5 + ("u:u.txt", "m:m.txt", "w:missing.txt", "nocolon", "w:dirlist", "e:empty.txt", "x:y:z.txt", ":w.txt"))
    return rng.choice(("", "a", "secret", "example.com"))


FILES = {"w.txt": G.WL, "u.txt": "\u00e4pfel\n\u00f6l\n\u6f22\u5b57\nab\n".encode(), "m.txt": b"abab\nabba\nbab\n", "empty.txt": b"", "dirlist": None, "y:z.txt": b"one\ntwo\n"}


def random_argv(rng):
    opts = []
    if rng.random() < .9:
        opts.append(("r", values(rng, "r")))
    for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 6))):
        c = rng.choice("aazzejjeMDwwPPp" + ("hvl" if rng.random() < .1 else ""))
        opts.append((c, values(rng, c) if c in ARG else None))
    if rng.random() < .6:
        rng.shuffle(opts)
    argv = spell(rng, opts)
    if rng.random() < .06:
        argv.insert(rng.randrange(len(argv) + 1), rng.choice(("-x", "--nosuch", "--amount", "-a", "--json=1", "-", "--", "-Z", "--e", "--p", "--pre", "--d", "--m", "--ma", "--mas", "-zx", "--he")))
    has_p = any(o[0] == "p" for o in opts)
    if rng.random() < (.12 if has_p else .93):
        p = rng.choice(("[a-z]{8}", "(a|b|c){5}x", "\\w{w}", "\\m{w}", "\\w{u}[0-9]", "(a(b(c)))", "", "a", "[a-", "x{2", "\\w{e}", "{3}a|b", "caf\u00e9?", "-", small_pattern(rng), small_pattern(rng)))
        k = rng.randrange(len(argv) + 1) if rng.random() < .3 else len(argv)
        argv[k:k] = (["--"] if rng.random() < .3 or p.startswith("-") else []) + [p] + ([rng.choice(("extra", "[a-z]"))] if rng.random() < .04 else [])
    return argv


def options(ctx):
    rng = ctx.rng
    invs = []
    def add(argv, **files):
        invs.append(Inv(argv, {**FILES, **rnd_file(rng), **files}))
    # built-in presets, from several sources
    for p in PRESETS:
        for r in ctx.scale(("file:rnd", "xorshift:77"), ("file:rnd", "xorshift:5", "xorshift:77", "zero", "chacha20:" + "0" * 63 + "1")):
            add(["-r", r] + spell(rng, [("p", p), ("a", rng.choice("123"))]))
        add(["-p", p])
        add(["-p", p, "-a", "3", "-j", "-e"])
    # every option in every form, alone and twice
    for c in LONG:
        for _ in range(3):
            o = [(c, values(rng, c) if c in ARG else None)]
            add(["-r", "file:rnd"] + spell(rng, o) + ["[a-z]{4}"])
            add(["-r", "file:rnd"] + spell(rng, o + [(c, values(rng, c) if c in ARG else None)]) + ["[a-z]{4}"])
    for a in ([], ["-h"], ["--help"], ["-v"], ["--version"], ["-l"], ["--list"], ["-P", "mine:abc", "-l"], ["-l", "-P", "mine:abc"], ["-P", "uuid:x", "--list"], ["-a"], ["-p"], ["a", "b"], ["-p", "uuid", "a"],
              ["--"], ["--", "-a"], ["-z", "-r", "zero", "-a", "3", "x"], ["-jz", "-r", "zero", "-a", "3", "x"], ["-a", "2", "x"], ["-r", "zero", ""], ["-r", "zero", "-a", "3", ""], ["-r", "zero", "-z", "-a", "3", ""],
              ["-r", "zero", "-a", "60", "[a-z]"], ["-a", "50", "-r", "xorshift:9", "[ab]"], ["-r", "zero", "-a3", "-j", ""], ["-ezj", "-rzero", "-a2", "q"], ["-r", "zero", "[a-z]{255}"], ["-r", "zero", "[a-z]{256}"],
              ["-r", "zero", "[a-z]{257}"], ["-r", "zero", "-j", "[a-z]{256}"], ["-r", "zero", "-j", "[a-z]{257}"], ["-r", "zero", "-j", "\"{128}"], ["-r", "zero", "-j", "\"{129}"], ["-r", "zero", "-j", "\\n{128}"],
              ["-r", "zero", "\u6f22{85}"], ["-r", "zero", "\u6f22{86}"], ["-r", "zero", "\u6f22{85}a"], ["-D", "1", "-r", "zero", "(a)"], ["-D", "2", "-r", "zero", "(a)"], ["--depth=1", "-r", "zero", "a"]):
        add(a)
    # amounts, presets and lists in numbers beyond eight and sixteen bits
    for n in (255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70001):
        for fl in ([], ["-z"]):
            if not fl or n in (256, 65536):
                add(["-r", "zero", "-a", str(n)] + fl + ["[b-y]"])
    for n in (255, 256, 257, 300):
        add(["-r", "file:rnd", "-j", "-a", str(n), "[a-z]{2}"])
        add(["-r", "file:rnd", "-a", str(n), "[a-z]"])
        add(sum((["-P", "p%d:v%x[a-z]" % (k, k)] for k in range(n)), ["-r", "file:rnd"]) + ["-p", "p%d" % rng.choice((0, n - 1, rng.randrange(n)))])
        add(sum((["-P", "p%d:v%x[a-z]" % (k, k)] for k in range(n)), []) + ["-l"])
        add(sum((["-w", "w%d:%s.txt" % (k, rng.choice("wum"))] for k in range(n)), ["-r", "file:rnd"]) + ["\\w{w0}\\w{w%d}\\w{w%d}" % (n - 1, rng.randrange(n))])
        add(["-r", "file:rnd", "-P", "n" * n + ":" + "v" * 9, "-P", "n" * (n - 1) + ":x", "-P", "n" * (n & 255) + ":y", "-p", "n" * n])
        add(["-r", "file:rnd", "-P", "q:" + "|".join("%x" % k for k in range(n)), "-p", "q"])
        add(["-r", "file:rnd", "-w", "n" * n + ":w.txt", "-w", "n" * (n - 1) + ":u.txt", "\\w{%s}" % ("n" * n)])
    # definitions and their use
    for d in ("mine:a:b", "mine:::", "mine: x", "mine:x ", "mine:[xyz]{3}", "mi ne:q", "m\u00efne:q\u00fc", "mine:", "mine:\\u{3a}:", "=:=", "mine:\t", "MINE:q", "apple1:own", "mine:-p", "mine:a|b", "mine:\\:", "mine:(a"):
        n = d.split(":")[0]
        for a in (["-P", d, "-p", n], ["-p", n, "-P", d], ["--define-preset=" + d, "-P", "other:o", "--preset", n, "-a", "2"], ["-P", d, "-l"], ["-P", d, "-P", n + ":second", "-p", n], ["-P", n + ":first", "-P", d, "-p", n]):
            if a[0] == "-P" or rng.random() < .6:
                add(["-r", "file:rnd"] + a)
    for d, u in (("x:y:z.txt", "x"), ("x:y:z.txt", "x:y"), ("n\u00e4:u.txt", "n\u00e4"), (" w:w.txt", " w"), ("w: w.txt", "w"), (":w.txt", ""), ("w w:w.txt", "w w"), ("w:w.txt:", "w")):
        for k in "wm":
            add(["-r", "file:rnd", "-w", d, "\\%s{%s}" % (k, u)])
            add(["-r", "file:rnd", "\\%s{%s}" % (k, u), "--wordlist=" + d, "-a2"])
    for ws in (("w:w.txt", "w:u.txt"), ("w:w.txt", "v:w.txt"), ("w:w.txt", "w:missing.txt"), ("w:missing.txt", "w:w.txt"), ("a:w.txt", "b:u.txt", "a:m.txt")):
        for p in ("\\w{w}", "\\m{w}", "\\w{a}\\w{b}", "\\w{v}"):
            if rng.random() < .5 or p == "\\w{w}":
                add(["-r", "file:rnd"] + sum((["-w", x] for x in ws), []) + [p])
    # unpredictable sequences that contain what separates them
    for a in (["[ab]\\n[cd]"], ["-a", "3", "[ab]\\n[cd]"], ["-a2", "(\\n|a){4}"], ["-z", "-a", "2", "x\\u{0}[yz]"], ["-j", "-a", "2", "[ab]\\n"], ["\\n"], ["-a", "2", "\\n{20}"]):
        add(a)
    # each option before and after each other
    one = {"a": "2", "p": "mine", "D": "9", "w": "w:u.txt", "r": "file:rnd", "P": "mine:x[ab]{3}\\w{w}", "M": "1", "m": "secret", "d": "x.com", "t": "user"}
    flags = "apDvzewrlPjMhmdt"
    for c in flags:
        for d in flags:
            if c != d and (c not in "vlh" and d not in "vlh" or rng.random() < .2):
                o = spell(rng, [(x, one.get(x)) for x in (c, d)])
                rest = spell(rng, [(x, one[x]) for x in "Pwr" if x not in (c, d)])
                add((rest + o if rng.random() < .5 else o + rest) + ([] if "p" in (c, d) else [rng.choice(("\\m{w}[a-f]{3}", "\\w{w}"))]))
    n = 1024
    deep = "(" * 40 + "a" + ")" * 40
    for d in ("40", "41", "42", "39"):
        add(["-r", "zero", "-D", d, deep])
    for _ in range(ctx.scale(420, 6000)):
        add(random_argv(rng))
    check(ctx, "arguments", "all", invs)
    # the sandboxed program behaves the same
    check(ctx, "arguments (sandboxed)", "all", rng.sample(invs, ctx.scale(120, 1500)), "cli")


# ------------------------------------------------------------- configuration
def conf_line(rng):
    ws = lambda: rng.choice((" ", " ", " ", "\t", "  ", " \t "))
    lead = rng.choice(("", "", "", "", " ", "\t", "   "))
    r = rng.random()
    name = rng.choice(("mine", "mine", "other", "third", "uuid", "n\u00e4me", "a-b_c"))
    sep = rng.choice((ws(), ws(), ":", ":" + rng.choice(("", " ")), " :"))
    if r < .38:
        return lead + "preset" + ws() + name + sep + rng.choice(("[xyz]{3}", "(a|b)c", "p q r", "\\w{w}", "a:b", "[0-9]{4}", "", "x # y", "(bad", "caf\u00e9", "{2}a|b"))
    if r < .58:
        return lead + "wordlist" + ws() + rng.choice(("w", "w", "v", "x:y"[:1])) + sep + rng.choice(("w.txt", "w.txt", "u.txt", "m.txt", "missing.txt", "empty.txt", "dirlist", "y:z.txt", ""))
    if r < .70:
        return lead + "random" + ws() + rng.choice(("zero", "xorshift:17", "file:rnd", "file:rnd", "file:rnd2", "nosuch", "file:missing", "xorshift:", "", "system"))
    if r < .85:
        return lead + rng.choice(("# preset mine no", "#random nosuch", "", "", "   ", "\t", "presets mine x", "presetmine x", "random", "preset", "wordlist", "preset ", "random:zero", "Preset mine x", "amount 3", "-r zero",
                                  "mine preset x", "xpreset mine y", "rando m", "wordlistw w.txt", "; x", "[section]", "key = value", "\u00e9\u00e9"))
    if r < .93:
        return lead + "preset" + ws() + "nocolonorblank"
    return lead + "".join(rng.choice("abc preset\twordlist:random zero#{}[]()|\\\"'") for _ in range(rng.choice((3, 20, 60))))


def conf_argv(rng):
    r = rng.random()
    if r < .16:
        return ["-l"]
    a = [] if rng.random() < .6 else ["-r", rng.choice(("file:rnd", "zero", "xorshift:3"))]
    if rng.random() < .25:
        a += ["-P", rng.choice(("mine:FROM[A-C]OPTION", "third:t"))]
    if rng.random() < .2:
        a += ["-w", "w:u.txt"]
    if rng.random() < .3:
        a += ["-a", "2"]
    if r < .62:
        return a + ["-p", rng.choice(("mine", "mine", "other", "third", "uuid", "n\u00e4me", "a-b_c", "nosuch", "firefox"))]
    return a + [rng.choice(("[a-z]{8}", "\\w{w}", "\\w{w}-\\w{v}", "\\m{w}", "(a|b|c){4}"))]


def config(ctx):
    rng = ctx.rng
    invs = []
    def add(conf, argv, where="home", **more):
        conf = conf if isinstance(conf, bytes) else conf.encode()
        f = {**FILES, **rnd_file(rng), "rnd2": bytes(rng.randrange(256) for _ in range(4096)), **more}
        if where == "home":
            invs.append(Inv(argv, {**f, "h/.config/passgen.conf": conf}, home="h"))
        elif where == "xdg":
            invs.append(Inv(argv, {**f, "x/passgen.conf": conf, "h/.config/passgen.conf": b"preset mine FROMHOME\nrandom zero\n"}, home=rng.choice(("h", None)), xdg="x"))
        elif where == "xdgnone":
            invs.append(Inv(argv, {**f, "h/.config/passgen.conf": conf}, home="h", xdg="nowhere"))
        elif where == "dir":
            invs.append(Inv(argv, {**f, "h/.config/passgen.conf": None}, home="h"))
        else:
            invs.append(Inv(argv, {**f, "h/.config/passgen.conf": conf}, home=None))
    fixed = ["preset mine [a-z]{4}\n", "preset mine [a-z]{4}", "\n\npreset mine x\n\n", "random file:rnd\n", "wordlist w w.txt\n", "wordlist w w.txt", "wordlist w:w.txt\nrandom file:rnd", "# c\npreset mine a\npreset mine b\n",
             "random nosuch\npreset mine q\n", "preset bad\npreset mine q\n", "wordlist w missing.txt\npreset mine q\n", "preset mine a\r\npreset other b\r\n", "preset mine a\0preset mine b\n", "\0", "preset\tmine\tx y\tz\n",
             "  preset  mine  [ab]{3}  \n", "random zero\nrandom file:rnd\n", "random file:rnd\nrandom nosuch\n", "wordlist w w.txt\nwordlist w u.txt\n", "preset apple1 mine\n", "random file:short\npreset mine x\n",
             "preset mine [a-z]\n" * 30, "x" * 5000 + "\npreset mine after\n", "preset mine " + "y" * 200 + "\n", "preset " + "n" * 300 + " v\npreset mine w\n"]
    for c in fixed:
        for a in (["-r", "zero", "-p", "mine"], ["-l"], ["-r", "zero", "\\w{w}"], ["-p", "mine"], ["-r", "file:rnd", "-p", "apple1"]):
            add(c, a, rng.choice(("home", "home", "xdg")), **({"short": b"abc"} if "short" in c else {}))
    # presets, lists and fields in numbers beyond eight bits
    for n in (255, 256, 257, 300):
        add("".join("preset p%d v%x[a-z]\n" % (k, k) for k in range(n)), ["-r", "file:rnd", "-p", "p%d" % rng.choice((0, n - 1, rng.randrange(n)))])
        add("".join("preset p%d v%x[a-z]\n" % (k, k) for k in range(n)), ["-P", "mine:q", "-l"])
        add("".join("wordlist w%d %s.txt\n" % (k, rng.choice("wum")) for k in range(n)), ["-r", "file:rnd", "\\w{w0}\\w{w%d}\\w{w%d}" % (n - 1, rng.randrange(n))])
        add("wordlist %s w.txt\nwordlist %s u.txt\n" % ("n" * n, "n" * (n - 1)), ["-r", "file:rnd", "\\w{%s}" % ("n" * n)])
        add("preset %s %s\npreset %s x\nrandom file:rnd\n" % ("n" * n, "v" * n, "n" * (n - 1)), ["-p", "n" * n])
        add("preset mine " + " ".join("%x" % k for k in range(n)) + "\nrandom file:rnd\n", ["-p", "mine"])
    # around the sizes of buffers
    for n in ctx.scale((10230, 10238, 10239, 10240, 10241, 20481, 30000), (4095, 4096, 4097, 8192, 10200, 10230, 10238, 10239, 10240, 10241, 10242, 10250, 20479, 20480, 20481, 40960, 40961, 60000)):
        tail = "preset mine AF[T]ER\nrandom zero"
        for fill in ("# %s\n" % ("c" * 61), "\n", "preset p%d x\n", "#" + "-" * 3000 + "\n"):
            c = ""
            k = 0
            while len(c) + len(fill) + len(tail) < n:
                c += fill % (k % 50) if "%d" in fill else fill
                k += 1
            c += "#" * max(0, n - len(c) - len(tail) - 1) + "\n" + tail
            add(c, ["-p", "mine", "-a", "2"], rng.choice(("home", "xdg")))
            if rng.random() < .4:
                add("preset mine FIRST\n" + c[:n - 19] , ["-r", "zero", "-p", "mine"])
    for _ in range(ctx.scale(330, 5000)):
        nl = "\n" if rng.random() < .95 else "\r\n"
        c = nl.join(conf_line(rng) for _ in range(rng.choice((1, 1, 2, 3, 5, 9, 20)))) + rng.choice((nl, nl, ""))
        add(c, conf_argv(rng), rng.choice(("home",) * 6 + ("xdg", "xdg", "xdgnone", "none")))
    for _ in range(ctx.scale(30, 600)):
        c = bytes(rng.choice((rng.randrange(256), 10, 32, 58)) for _ in range(rng.choice((5, 50, 400)))).replace(b"\0", b"" if rng.random() < .7 else b"\0")
        add(rng.choice((b"", b"preset mine x\n")) + c + rng.choice((b"", b"\npreset other y\n")), rng.choice((["-r", "zero", "-p", "mine"], ["-r", "zero", "-p", "other"], ["-r", "file:rnd", "[a-z]{5}"])))
    add(b"", ["-r", "zero", "x"], "dir")
    # the system's file, alone or before the user's
    system = lambda v: {"sysconf/passgen.conf": v if v is None or isinstance(v, bytes) else v.encode()}
    both = [("preset mine s[a-z]\n", "preset mine u[a-z]\n"), ("random file:rnd\n", "random file:rnd2\n"), ("random file:rnd\n", "random nosuch\n"), ("random nosuch\n", "random file:rnd\n"),
            ("wordlist w w.txt\n", "wordlist w u.txt\n"), ("wordlist w w.txt", "preset mine \\w{w}"), ("preset mine \\w{w}", "wordlist w u.txt"), ("preset mine a\npreset other b", "preset mine c"),
            ("preset mine a", "preset other b\npreset mine c"), ("random file:short\n", "preset mine x\n"), ("preset mine x\n", "random file:short\n"), ("", "preset mine x\n"), ("preset mine x\n", ""),
            (None, "preset mine x\n"), ("preset mine x\0\n", "preset other y\n"), ("preset bad\n", "preset bad\nrandom nosuch\n"), ("preset mine x\n" + "#" * 10240, "preset mine y\n" * 900)]
    for a, b in both:
        for argv in (["-r", "zero", "-p", "mine"], ["-r", "file:rnd", "\\w{w}{5}"], ["-p", "other"], ["-l"], ["-p", "mine", "-a", "3"]):
            add(b, argv, rng.choice(("home", "home", "xdg", "none")), short=b"abc", **system(a))
    for _ in range(ctx.scale(120, 2000)):
        a, b = ("\n".join(conf_line(rng) for _ in range(rng.choice((0, 1, 2, 3, 5)))) + rng.choice(("\n", "")) for _ in range(2))
        add(b, conf_argv(rng), rng.choice(("home", "home", "home", "xdg", "xdgnone", "none")), **system(a))
    check(ctx, "configuration", "all", invs)
    check(ctx, "configuration (sandboxed)", "all", rng.sample(invs, ctx.scale(80, 1000)), "cli")


def sandboxed(ctx):
    """under the filter, whatever is asked of the program"""
    rng = ctx.rng
    invs = []
    for _ in range(ctx.scale(100, 2000)):
        invs.append(Inv(random_argv(rng), {**FILES, **rnd_file(rng)}))
    for _ in range(ctx.scale(60, 1000)):
        conf = "\n".join(conf_line(rng) for _ in range(rng.randint(0, 12)))
        f = {**FILES, **rnd_file(rng), "rnd2": bytes(rng.randrange(256) for _ in range(4096)), "h/.config/passgen.conf": conf.encode()}
        invs.append(Inv(conf_argv(rng), f, home="h"))
    for p in ("\\w{big}", "\\m{big}", "(\\w{big} ){5}"):
        big_wl = "\n".join("%s%d" % (rng.choice("abcdef"), rng.randrange(10**6)) for _ in range(ctx.scale(700, 5000))).encode()
        invs.append(Inv(["-r", "file:rnd", "-a", "2", "-w", "big:big.txt", p], {**rnd_file(rng), "big.txt": big_wl}))
    check(ctx, "uses under the filter", "all", invs, "cli")
