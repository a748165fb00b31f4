"""C21: the system call filter. Specification: Sandbox.tla, the calls the filter
lets through and the part of the operating system they act upon. MC_Sandbox shows
that no sequence of calls can do harm under it (and that it can without). Probes
made under the installed filter must fare as the specification says, and the
program itself must do under the filter what it does without."""
from vlib import *
import vlib
from checks import clicase as K
from checks.clicase import Inv
import gencase as G

AF = (1 << 64) - 100      # AT_FDCWD
NR = dict(read=0, write=1, open=2, close=3, fstat=5, lseek=8, mmap=9, munmap=11, brk=12, ioctl=16, readv=19, writev=20, mremap=25,
          exit=60, exit_group=231, openat=257, newfstatat=262, getrandom=318)

# calls that do something when nothing stops them
EFFECTS = [
    (2, ["snew", 0x41, 0o600]), (2, ["snew", 0o101 | 0o1000, 0o600]), (2, ["svictim", 0x200]), (2, ["svictim", 0x201]), (2, ["snew", 0x40, 0o600]), (2, ["snew", 0xc2, 0o600]),
    (257, [AF, "snew", 0x41, 0o600]), (257, [AF, "svictim", 0x200]), (257, [AF, "svictim", 0x202]), (257, [9, "snew", 0x42, 0o600]), (257, [AF, "snew", 0x40, 0o600]),
    (85, ["snew", 0o600]), (437, [AF, "snew", "v0", 24]),
    (1, [7, "v0", 4]), (20, [7, "v3", 1]), (18, [7, "v0", 4, 0]), (296, [7, "v3", 1, 0, 0]), (328, [7, "v3", 1, 0, 0, 0]), (40, [7, 8, 0, 4]), (326, [8, 0, 7, 0, 4, 0]),
    (77, [7, 3]), (76, ["svictim", 3]), (285, [7, 0, 0, 5000]), (87, ["svictim"]), (263, [AF, "svictim", 0]), (82, ["svictim", "snew"]), (264, [AF, "svictim", AF, "snew"]),
    (316, [AF, "svictim", AF, "snew", 0]), (83, ["snew", 0o700]), (258, [AF, "snew", 0o700]), (86, ["svictim", "snew"]), (265, [AF, "svictim", AF, "snew", 0]),
    (88, ["svictim", "snew"]), (266, ["svictim", AF, "snew"]), (133, ["snew", 0o10600, 0]), (259, [AF, "snew", 0o10600, 0]),
    (59, ["s/usr/bin/touch", "v1", "v2"]), (322, [AF, "s/usr/bin/touch", "v1", "v2", 0]), (57, []), (58, []), (56, [17, 0, 0, 0, 0]),
]


def case(abi, nr, a):
    a = list(a) + [0] * (6 - len(a))
    num = lambda x: 4096 if isinstance(x, str) else x
    return {"abi": abi, "nr": big(nr), "a": [big(num(x)) for x in a]}, "p %%s %d %x %s" % (abi, nr, " ".join(x if isinstance(x, str) else "%x" % x for x in a)), {"abi": abi, "nr": nr, "args": a}


def probes(ctx):
    rng = ctx.rng
    M1 = (1 << 64) - 1
    r = []
    # (335 and 336 are not calls of programs: they end in the kernel's own code for
    # probes, past any filter)
    for nr in [k for k in range(0, 470) if k not in (335, 336)] + [511, 512, 513, 520, 545, 1000, 4096, 65535, 65536 + 1, (1 << 30) - 1]:
        r.append((64, nr, [M1] * 6))
        if nr not in (34, 61):
            r.append((64, nr, [0] * 6))
        if nr < 400:
            r.append((64, (1 << 30) + nr, [M1] * 6))
            r.append((32, nr, [M1] * 6) if nr != 1 else (32, 1, [0] * 6))
    r += [(64, nr, a) for nr, a in EFFECTS]
    # every single bit of every flag
    bits = [1 << k for k in range(64)]
    for nr, pre, post in ((2, ["svictim"], [0o600]), (257, [AF, "svictim"], [0o600]), (257, [9, "svictim"], [0o600])):
        for f in [0, 3] + bits + [rng.getrandbits(64) & rng.getrandbits(64) for _ in range(ctx.scale(30, 2000))] + [rng.getrandbits(22) & rng.getrandbits(22) for _ in range(ctx.scale(60, 3000))]:
            r.append((64, nr, pre + [f] + post))
    fds = list(range(12)) + [255, 256, 257, 1 << 16, (1 << 31) - 1, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (1 << 32) + 7, (1 << 33) + 1, (1 << 63) + 1, M1, M1 - 1] + [b | 1 for b in bits[1:]] + [b | 2 for b in bits]
    for nr in (1, 20, 3, 0, 19, 5, 8):
        for fd in fds:
            r.append((64, nr, [fd, "v3" if nr in (19, 20) else "v0", 1 if nr in (19, 20) else 4]))
    for addr in (0, 1, 4096, 0x10000, 1 << 40, 1 << 47):
        for prot in list(range(16)) + ([3 | b for b in bits] + bits if addr == 0 else []):
            for fl in (0x22, 0x21, 0x02, 0x32, 0x22 | 0x100000):
                if addr == 0 or rng.random() < .3:
                    r.append((64, 9, [addr, 8192, prot, fl, M1, 0]))
    for b in bits:
        r.append((64, 9, [0, 8192, 3, 0x22 ^ b, M1, 0]))
        r.append((64, 9, [0, 8192, 3, 0x22 ^ b, 7, 0]))
        r.append((64, 9, [b, 8192, 3, 0x22, M1, 0]))
    for prot in range(8):
        r.append((64, 10, ["v0", 4096, prot]))
        r.append((64, 329, ["v0", 4096, prot, 0]))
    for fd in (0, 1, 2, 3, 7, 8, (1 << 32) + 1, M1):
        for rq in [0x5401, 0x5402, 0x5403, 0x5412, 0x5413, 0x5414, 0x541b, 0x541c, 0x541d, 0x802c542a, 0x5421, 0x5451, 0, M1, 0x40049409] + [0x5413 ^ b for b in bits] + [0x5401 ^ b for b in bits]:
            if fd == 1 or rng.random() < ctx.scale(.12, 1):
                r.append((64, 16, [fd, rq, "v0"]))
    for nr in (25, 11, 12, 318, 262):
        for _ in range(ctx.scale(3, 60)):
            r.append((64, nr, [M1 - rng.randrange(4000), rng.choice((0, M1, rng.getrandbits(20))), rng.getrandbits(3), rng.getrandbits(2), M1, 0]))
    for _ in range(ctx.scale(200, 8000)):
        nr = rng.choice(list(NR.values()))
        if nr in (25, 11, 12):
            continue
        a = [rng.choice((0, 1, 2, 3, 7, 0x22, 0x5413, M1, 1 << 32, (1 << 32) + 1, rng.getrandbits(rng.randint(1, 64)))) for _ in range(6)]
        if nr in (0, 19, 318, 5, 262):      # these write to memory
            a[1 if nr != 318 else 0] = M1
            if nr == 262:
                a[2] = M1
        r.append((64, nr, a))
    return r


def run(ctx):
    ctx.theorem("MC_Sandbox")
    off = tlc("MC_Sandbox", "MC_Sandbox_off")
    if "Safe" not in off.violated:
        raise Broken("the model allows no harm even without a filter")
    b = build("sbx", "cli")
    os.makedirs(BUILD, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
        os.chmod(tmp, 0o711)
        vlib.ENV["SBX_DIR"] = tmp
        cs = [case(*p) for p in probes(ctx)]
        # that the effects are real
        base = drive(b["sbx"], [l % "n" for c, l, _ in (case(64, nr, a) for nr, a in EFFECTS)])
        real = sum(1 for o in base if o.get("eff"))
        plain = drive(b["sbx"], ["p n 32 14 0 0 0 0 0 0"])
        ctx.notes["effects seen without the filter"] = "%d of %d" % (real, len(EFFECTS))
        if real < len(EFFECTS) // 2:
            raise Broken("the probes have no effect even without the filter: %s" % base)
        obs = drive(b["sbx"], [l % "f" for _, l, _ in cs])
        its = [i for _, _, i in cs]
        ok = split_crashes(ctx, "probes", its, obs)
        if any(o.get("fate") == "none" for o in obs):
            raise Broken("probes could not be prepared")
        ctx.validate("T_Sandbox", [(dict(cs[i][0], o=obs[i]), its[i]) for i in ok], "probes")
    uses(ctx, b["cli"])


def uses(ctx, exe):
    rng = ctx.rng
    K.sandboxed(ctx)
    # standard output and input of any kind: the program ends as it does elsewhere
    import pty
    tests = [["x"], ["-h"], ["-v"], ["-l"], ["-a", "300", "[a-z]{60}"], ["("], ["-j", "-e", "x"], ["-q"], ["-r", "file:/dev/urandom", "[a-z]{30}"], ["-r", "file:/dev/zero", "a{900}"],
             ["-r", "system", "[a-z]{200}"], ["-w", "w:/dev/null", "x"], ["-p", "uuid"], ["-m", "pass", "[a-z]{9}"]]
    plain = build("cliasan")["cliasan"]
    for t in tests:
        for out in ("null", "zero", "pty", "file"):
            seen = []
            for e in (exe, plain):
                fds, o = [], None
                if out == "pty":
                    m, s = pty.openpty()
                    fds, o = [m, s], s
                elif out == "file":
                    f = tempfile.TemporaryFile(dir=BUILD)
                    o = f.fileno()
                else:
                    o = os.open("/dev/" + out, os.O_WRONLY)
                    fds = [o]
                p = subprocess.Popen(["passgen"] + t, executable=e, stdin=subprocess.DEVNULL, stdout=o, stderr=o,
                                     env={"ASAN_OPTIONS": "detect_leaks=0"})
                if out == "pty":
                    os.set_blocking(fds[0], False)
                    while p.poll() is None:
                        try:
                            os.read(fds[0], 65536)
                        except OSError:
                            time.sleep(.001)
                seen.append(p.wait(timeout=30))
                for x in fds:
                    os.close(x)
            ctx.traces += 1
            if seen[0] != seen[1]:
                ctx.fail("kinds of output", "exit status %d under the filter, %d without" % tuple(seen), {"argv": t, "out": out})
    ctx.notes["kinds of output"] = len(tests) * 4
    # much memory, many reads
    with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
        p = tmp + "/words"
        for n, size in ((200000, 8), (40, 200000), (3, 3000000)):
            open(p, "w").write("\n".join("".join(rng.choice("abcdefgh") for _ in range(20)) * (size // 20 or 1) + str(i) for i in range(n)))
            seen = []
            for e in (exe, plain):
                q = subprocess.run(["passgen", "-r", "xorshift:5", "-w", "w:" + p, "-a", "2", "\\w{w}|{9}a"], executable=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                   env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=120)
                seen.append((q.returncode, hashlib.sha256(q.stdout).hexdigest()))
            ctx.traces += 1
            if seen[0] != seen[1]:
                ctx.fail("large wordlists", "%s under the filter, %s without" % tuple(seen), {"words": n, "size": size})
