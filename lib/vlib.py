"""Machinery shared by the checks: building /repo's current sources together
with the conformance driver, running the driver, and running TLC on the
modules in /verif/spec."""
import fcntl, hashlib, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PASSGEN_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The machinery could not do its work (not a verdict on the property)."""


# ------------------------------------------------------------------ building
def _sources():
    lib, cli = [], []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        rel = os.path.relpath(root, os.path.join(REPO, "src"))
        top = rel.split(os.sep)[0]
        for f in sorted(files):
            if not f.endswith(".c"):
                continue
            path = os.path.join(root, f)
            if top == "cli":
                cli.append(path)
            elif top in ("bench", "tests", "tools"):
                continue
            else:
                lib.append(path)
    return lib, cli


def _tree_hash():
    h = hashlib.sha256()
    for base in ("src", "include", "CMakeLists.txt"):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
            continue
        for root, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                fp = os.path.join(root, f)
                h.update(os.path.relpath(fp, REPO).encode())
                h.update(open(fp, "rb").read())
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        h.update(open(os.path.join(VERIF, "harness", f), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:16]


def _gen_config(dst, undef=()):
    os.makedirs(os.path.join(dst, "passgen"), exist_ok=True)
    text = open(os.path.join(REPO, "include/passgen/config.h.in")).read()

    def sub(m):
        return "/* #undef %s */" % m.group(1) if m.group(1) in undef else "#define %s" % m.group(1)
    text = re.sub(r"#cmakedefine\s+(\w+)", sub, text)
    open(os.path.join(dst, "passgen/config.h"), "w").write(text)
    ver = os.path.join(REPO, "src/version.c.in")
    if os.path.exists(ver):
        v = open(ver).read()
        v = re.sub(r"@\w*MAJOR@", "1", v)
        v = re.sub(r"@\w*(MINOR|PATCH)@", "0", v)
        v = re.sub(r"#cmakedefine\s+(\w+).*", r"", v)
        v = re.sub(r"@\w+@", "-", v)
        open(os.path.join(dst, "version.c"), "w").write(v)


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


SYSCONF = "-Wl," + ",".join("--wrap=" + f for f in ("fopen", "fopen64", "open", "open64", "openat", "access", "stat"))
VARIANTS = {
    # name: (undef'd config switches, cflags, ldflags, main sources, with cli sources)
    "drv": ((), ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"], ["drv.c"], None),
    "drvrel": (("PASSGEN_DEBUG",), ["-O3", "-DNDEBUG", "-DWRAP_FREE"], ["-Wl,--wrap=free,--wrap=malloc,--wrap=calloc,--wrap=realloc"], ["drv.c"], None),
    "drvtsan": ((), ["-O1", "-g", "-fsanitize=thread"], ["-fsanitize=thread"], ["drv.c"], None),
    "drvdbg": ((), ["-O0", "-g", "-DWRAP_FREE"], ["-Wl,--wrap=free,--wrap=malloc,--wrap=calloc,--wrap=realloc"], ["drv.c"], None),
    "cli": ((), ["-O1", "-g", "-DPASSGEN_SECCOMP"], ["-lseccomp", SYSCONF], ["sysconf.c"], "all"),
    "cliasan": ((), ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address", SYSCONF], ["sysconf.c"], "all"),
    "sbx": ((), ["-O1", "-g", "-DPASSGEN_SECCOMP"], ["-lseccomp"], ["sbx.c"], "nomain"),
}


def build(*names):
    """Build the named variants from /repo's working tree; returns {name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    key = _tree_hash()
    outdir = os.path.join(BUILD, "bin-" + key)
    os.makedirs(outdir, exist_ok=True)
    res = {}
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for old in os.listdir(BUILD):
            if old.startswith("bin-") and old != "bin-" + key:
                p = os.path.join(BUILD, old)
                if time.time() - os.path.getmtime(p) > 7200:
                    shutil.rmtree(p, ignore_errors=True)
        for name in names:
            target = os.path.join(outdir, name)
            res[name] = target
            if os.path.exists(target):
                continue
            undef, cflags, ldflags, mains, clisel = VARIANTS[name]
            work = tempfile.mkdtemp(prefix="b-", dir=BUILD)
            try:
                _gen_config(work, undef)
                lib, cli = _sources()
                srcs = [s for s in lib]
                if os.path.exists(os.path.join(work, "version.c")):
                    srcs.append(os.path.join(work, "version.c"))
                srcs += [os.path.join(VERIF, "harness", m) for m in mains]
                if clisel:
                    srcs += [c for c in cli if clisel == "all" or os.path.basename(c) != "main.c"]
                inc = ["-I", work, "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src", "cli")]
                procs, objs = [], []
                for i, s in enumerate(srcs):
                    o = os.path.join(work, "o%d.o" % i)
                    objs.append(o)
                    procs.append((s, subprocess.Popen(
                        ["gcc", "-std=gnu11", "-w", "-D_GNU_SOURCE"] + cflags + (["-fno-builtin-free"] if s.startswith(VERIF) else []) + inc + ["-c", s, "-o", o],
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
                    if len(procs) % 8 == 0:
                        for _, p in procs[-8:]:
                            p.wait()
                for s, p in procs:
                    o, _ = p.communicate()
                    if p.returncode != 0:
                        raise Broken("cannot compile %s:\n%s" % (s, o[-3000:]))
                tmp = os.path.join(work, "out")
                _run(["gcc"] + objs + ["-o", tmp] + ldflags + ["-lm", "-lpthread"])
                os.replace(tmp, target)
            finally:
                shutil.rmtree(work, ignore_errors=True)
    return res


# -------------------------------------------------------------------- driver
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=2000",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:allocator_may_return_null=1", LC_ALL="C")


class _Proc:
    def __init__(self, path):
        self.path = path
        self.p = None

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=ENV)

    def ask(self, line):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
            ans = self.p.stdout.readline()
        except BrokenPipeError:
            ans = b""
        if not ans.endswith(b"\n"):
            self.p.stdin.close() if self.p.stdin else None
            self.p.wait()
            self.err.seek(0)
            err = self.err.read().decode("latin1")
            m = re.search(r"(AddressSanitizer: [^\n]*|Assertion[^\n]*|assertion[^\n]*|SUMMARY[^\n]*)", err)
            rc = self.p.returncode
            self.p = None
            return {"crash": rc, "why": "timeout" if rc == -14 else (m.group(1)[:200] if m else err[-200:])}
        try:
            return json.loads(ans)
        except ValueError:
            raise Broken("driver answered %r to %r" % (ans[:300], line[:300]))

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=10)
            except Exception:
                self.p.kill()
            self.p = None


def drive(path, lines, workers=8):
    """Run every command line; returns the observations in order. A command
    that brings the driver down yields {"crash": status, "why": text}."""
    res = [None] * len(lines)
    if not lines:
        return res
    chunk = max(1, min(256, len(lines) // (workers * 4) + 1))
    q = queue.Queue()
    for i in range(0, len(lines), chunk):
        q.put(i)
    errs = []

    def work():
        pr = _Proc(path)
        try:
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                for k in range(i, min(len(lines), i + chunk)):
                    res[k] = pr.ask(lines[k])
        except Exception as e:  # noqa
            errs.append(e)
        finally:
            pr.stop()
    ts = [threading.Thread(target=work) for _ in range(min(workers, q.qsize()))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


# ----------------------------------------------------------------------- TLC
class TLCResult:
    pass


def tlc(module, cfg=None, env=None, workers=8, timeout=800, heap="6g", extra=(), simulate=None, deadlock=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    os.makedirs(BUILD, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLAJARS + ":" + SPEC, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-config", (cfg or module) + ".cfg", "-noTE"]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as ex:
        raise Broken("TLC timed out on %s after %ss" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult()
    r.out = p.stdout
    r.rc = p.returncode
    r.wall = time.time() - t0
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", p.stdout)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.violated = re.findall(r"(?:Invariant|property|Action property) (\w+) (?:is violated|was violated)", p.stdout)
    return r


def tlc_theorem(module, cfg=None, **kw):
    """A model checking run on the specification alone, which must succeed."""
    r = tlc(module, cfg, **kw)
    if r.rc != 0 or "Model checking completed. No error" not in r.out:
        raise Broken("specification theorem %s/%s failed (rc %d):\n%s" % (module, cfg, r.rc, (re.search(r"Error: [\s\S]{0,1200}", r.out) or [r.out[-2000:]])[0]))
    return r


def tlc_cases(module, cases, cfg=None, env=None, timeout=800, workers=8, heap="8g"):
    """Trace validation: every case (a JSON-able record) is written as one line
    of an ndjson file that the module reads; the module prints "@@ok <id>" or
    "@@bad <id> <explanation>" for each case. An observation that the module
    cannot even evaluate (a value outside of anything the specification knows)
    is rejected as well. Returns (result, {index: explanation})."""
    os.makedirs(BUILD, exist_ok=True)
    verdict, todo, total, odd = {}, list(range(len(cases))), None, 0
    while todo:
        f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=BUILD, delete=False)
        try:
            for i, k in enumerate(todo):
                f.write(json.dumps(dict(cases[k], id=i + 1)) + "\n")
            f.close()
            e = {"CASES": f.name}
            e.update(env or {})
            r = tlc(module, cfg, env=e, timeout=timeout, workers=workers, heap=heap)
        finally:
            os.unlink(f.name)
        if total is None:
            total = r
        else:
            total.distinct += r.distinct
            total.generated += r.generated
        for m in re.finditer(r'@@(ok|bad) (\d+)(?: ([^"\n]*))?', r.out):
            verdict[todo[int(m.group(2)) - 1]] = (m.group(1), m.group(3) or "")
        missing = [k for k in todo if k not in verdict]
        if not missing:
            break
        m = re.search(r"/\\ i = (\d+)", r.out)
        odd += 1
        if not m or "nested" not in r.out or todo[int(m.group(1)) - 1] in verdict or odd > 5:
            raise Broken("%s gave a verdict on %d of %d cases (first missing %s)\n%s\n%s" % (
                module, len(verdict), len(cases), missing[:3], json.dumps(cases[missing[0]])[:600], (re.search(r"Error: [\s\S]{0,1200}", r.out) or [r.out[-2000:]])[0]))
        err = re.search(r"Error: (.*(?:\n.*)?)", r.out)
        verdict[todo[int(m.group(1)) - 1]] = ("bad", "the observation is outside of the specification: %s" % (err.group(1) if err else ""))
        todo = [k for k in missing if k not in verdict]
    return total, {i: v[1] for i, v in verdict.items() if v[0] == "bad"}


# ------------------------------------------------------------------- helpers
def hx(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogatepass")
    return b.hex() if b else "-"


def big(n):
    r = []
    while n:
        r.append(n & 255)
        n >>= 8
    return r


def unbig(l):
    return sum(x << (8 * i) for i, x in enumerate(l))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.bad = []      # (key, explanation, replay)
        self.assumptions = []
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, r):
        self.states += r.distinct
        self.transitions += max(0, r.generated)

    def theorem(self, module, cfg=None, **kw):
        r = tlc_theorem(module, cfg, **kw)
        self.count(r)
        self.notes.setdefault("theorems", []).append(
            {"module": module, "config": cfg or module, "distinct_states": r.distinct, "states_generated": r.generated, "wall_s": round(r.wall, 1)})
        return r

    def validate(self, module, cases, what, cfg=None, env=None, batch=20000, **kw):
        """cases: list of (record for TLC, replay description). A rejected case
        becomes a violation."""
        bads = []
        for off in range(0, len(cases), batch):
            part = cases[off:off + batch]
            r, bad = tlc_cases(module, [c for c, _ in part], cfg=cfg, env=env, **kw)
            self.count(r)
            self.traces += len(part)
            for i, why in bad.items():
                bads.append((off + i, why))
        for i, why in bads:
            self.fail(what, why, cases[i][1], cases[i][0])
        d = self.notes.setdefault("validated", {})
        d[what] = d.get(what, 0) + len(cases)
        if cases and len(self.samples) < 12:
            self.samples.append({"kind": what, "case": cases[len(cases) // 2][1]})
        return bads

    def fail(self, what, why, replay, record=None):
        self.bad.append({"what": what, "why": why, "replay": replay, "record": record})


def split_crashes(ctx, what, items, obs):
    """Separate observations that brought the driver down. items: replay
    descriptions parallel to obs. Returns the indices of regular ones."""
    ok = []
    for i, o in enumerate(obs):
        if "crash" in o:
            ctx.fail(what, "the code under test crashed or hung: rc=%s %s" % (o["crash"], o["why"]), items[i])
        elif "unknown" in o:
            raise Broken("driver does not know the command for %r" % (items[i],))
        else:
            ok.append(i)
    return ok
