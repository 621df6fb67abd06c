"""Shared machinery: builds lacsap from /repo's working tree, runs enumerated Pascal programs through the real
compiler + runtime, compares with a reference model's prediction, replays every disagreement alone before reporting it."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18"
STDPATH = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = max(2, os.cpu_count() or 8)
THOROUGH = TIER == "thorough"


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _objects(makefile):
    text = re.sub(r"\\\n", " ", open(makefile).read())
    m = re.search(r"^OBJECTS\s*=\s*(.*)$", text, re.M)
    return m[1].split()


def _env():
    e = {"PATH": STDPATH, "HOME": "/root", "LANG": "C.UTF-8", "TMPDIR": "/tmp"}
    return e


def _compile(cmd, out):
    tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env())
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])
    os.replace(tmp, out)
    return out


class Built:
    pass


_built = None


def build(san=False):
    """lacsap and its runtime libraries from the current tree of REPO. san: also an ASan/UBSan runtime library."""
    global _built
    if _built:
        return _built
    t0 = time.time()
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    with open(BUILD + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        b = Built()
        hdr = _sha(*[_read(p) for p in sorted(glob.glob(REPO + "/*.h"))])
        rhdr = _sha(*[_read(p) for p in sorted(glob.glob(REPO + "/runtime/*.h"))])
        llvmcxx = subprocess.check_output([LLVM + "/bin/llvm-config", "--cxxflags"], env=_env()).decode().split()
        cxx = ["/usr/bin/clang++", "-DNDEBUG=1", "-O2", "-Wall", "-std=c++17"] + llvmcxx + \
            ["-fno-exceptions", "-fno-rtti", "-Qunused-arguments", "-std=c++17"]
        cc = ["/usr/bin/clang", "-g", "-Wall", "-std=c11", "-O2", "-fPIC"]
        jobs = []
        objs, r64, r32, rsan = [], [], [], []

        def want(cmd, src, hsh, dst):
            o = "%s/obj/%s.o" % (BUILD, _sha(" ".join(cmd), _read(src), hsh, src.rsplit("/", 1)[1])[:32])
            dst.append(o)
            if not os.path.exists(o):
                jobs.append((cmd + ["-c", src], o))
            else:
                os.utime(o)

        for o in _objects(REPO + "/Makefile"):
            want(cxx, REPO + "/" + o[:-2] + ".cpp", hdr, objs)
        for o in _objects(REPO + "/runtime/Makefile"):
            src = REPO + "/runtime/" + o[:-2] + ".c"
            want(cc, src, rhdr, r64)
            want(cc + ["-m32"], src, rhdr, r32)
            want(cc + ["-fsanitize=address", "-fno-sanitize-recover=all"], src, rhdr, rsan)
        tools = []
        for t in ("clangshim", "runlim"):
            want(["/usr/bin/gcc", "-O2", "-w"], VERIF + "/tools/" + t + ".c", "", tools)
        with ThreadPoolExecutor(JOBS) as pool:
            list(pool.map(lambda j: _compile(*j), jobs))
        b.key = _sha(*(objs + r64 + r32 + tools))[:24]
        d = BUILD + "/bin/" + b.key
        b.dir = d
        b.lacsap = d + "/lacsap"
        b.runlim = d + "/runlim"
        b.sanrt = d + "/san"
        if not os.path.exists(d + "/ok"):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d + "/shim")
            os.makedirs(b.sanrt)
            ld = subprocess.check_output([LLVM + "/bin/llvm-config", "--ldflags", "--libs", "--system-libs"],
                                         env=_env()).decode().split()
            _compile(["/usr/bin/clang++", "-rdynamic", "-fuse-ld=lld"] + objs + ld, b.lacsap)
            for name, ob in (("libruntime.a", r64), ("libruntime-m32.a", r32), ("san/libruntime.a", rsan)):
                subprocess.check_call(["ar", "rcs", d + "/" + name] + ob, env=_env())
            _compile(["/usr/bin/gcc", tools[0]], d + "/shim/clang")
            _compile(["/usr/bin/gcc", tools[1]], b.runlim)
            open(d + "/ok", "w").close()
        os.utime(d)
        # keep the cache small
        bins = sorted(glob.glob(BUILD + "/bin/*"), key=os.path.getmtime)
        for old in bins[:-6]:
            if time.time() - os.path.getmtime(old) > 3600:
                shutil.rmtree(old, ignore_errors=True)
        obl = sorted(glob.glob(BUILD + "/obj/*.o"), key=os.path.getmtime)
        for old in obl[:-600]:
            if time.time() - os.path.getmtime(old) > 3600:
                os.unlink(old)
    b.build_s = time.time() - t0
    _built = b
    return b


class Res:
    __slots__ = ("crc", "cerr", "rc", "out", "err", "exe", "ir")

    def __init__(self):
        self.crc = self.rc = None
        self.cerr = self.out = self.err = b""
        self.exe = False
        self.ir = None

    def brief(self):
        if self.crc != 0:
            return "compiler exit %s: %s" % (self.crc, self.cerr.decode("latin1")[-600:])
        return "program exit %s\nstdout:\n%s\nstderr:\n%s" % (
            self.rc, self.out.decode("latin1")[:6000], self.err.decode("latin1")[:1500])


class Runner:
    def __init__(self):
        self.b = build()
        self.root = tempfile.mkdtemp(prefix="mc-")
        self.n = 0
        self.lock = threading.Lock()
        self.compiles = self.runs = 0
        self.env = _env()
        self.env["PATH"] = self.b.dir + "/shim:" + STDPATH
        self.realenv = _env()
        self.realenv["MC_REALCLANG"] = "1"

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def newdir(self):
        with self.lock:
            self.n += 1
            d = "%s/%d" % (self.root, self.n)
        os.mkdir(d)
        return d

    def popen(self, cmd, cwd, stdin=b"", wall=300, env=None):
        p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=env or self.env, start_new_session=True)
        try:
            out, err = p.communicate(stdin, wall)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
            return "timeout", out, err
        return p.returncode, out, err

    def compile(self, d, flags=(), cpu=30, name="p.pas", realclang=False, wall=300):
        self.compiles += 1
        return self.popen([self.b.runlim, str(cpu), "64", "0", self.b.lacsap] + list(flags) + [name], d, wall=wall,
                          env=self.realenv if realclang else None)

    def exec(self, d, stdin=b"", args=(), cpu=10, exe="p", fsize=16, wall=300, env=None):
        self.runs += 1
        return self.popen([self.b.runlim, str(cpu), str(fsize), "0", "./" + exe] + list(args), d, stdin, wall=wall, env=env)

    def program(self, src, flags=(), stdin=b"", files=None, args=(), cpu=10, ccpu=30, realclang=False, keep=None, fsize=16):
        d = self.newdir()
        r = Res()
        try:
            with open(d + "/p.pas", "wb") as f:
                f.write(src if isinstance(src, bytes) else src.encode("latin1"))
            for k, v in (files or {}).items():
                with open(d + "/" + k, "wb") as f:
                    f.write(v if isinstance(v, bytes) else v.encode("latin1"))
            r.crc, cout, cerr = self.compile(d, flags, ccpu, realclang=realclang)
            r.cerr = cerr + cout
            r.exe = os.path.exists(d + "/p")
            if r.crc == 0 and r.exe:
                r.rc, r.out, r.err = self.exec(d, stdin, args, cpu, fsize=fsize)
            elif r.crc == 0:
                r.crc = "no executable"
            if keep:
                r.ir = keep(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return r


def pmap(fn, items, jobs=None):
    """Ordered parallel map that yields results as they come; items may be a generator."""
    jobs = jobs or JOBS
    with ThreadPoolExecutor(jobs) as pool:
        from collections import deque
        q = deque()
        it = iter(items)
        done = False
        while True:
            while not done and len(q) < jobs * 3:
                try:
                    x = next(it)
                except StopIteration:
                    done = True
                    break
                q.append((x, pool.submit(fn, x)))
            if not q:
                return
            x, f = q.popleft()
            yield x, f.result()


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """key -> (config or '*', what). Lines: 'finding: property=C01 config=* key=<json string> what=<text>'"""
    res = {}
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) config=(\S+) key=("(?:[^"\\]|\\.)*") what=(.*)', line)
            if m and m[1] == prop:
                res.setdefault(json.loads(m[3]), []).append((m[2], m[4].strip()))
    return res


class Check:
    """One property's run: collects violations, known findings and coverage; writes the evidence file."""

    def __init__(self, prop, level, max_violations=3):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []
        self.known = known_findings(prop)
        self.known_seen = {}
        self.cov = {}
        self.assumptions = []
        self.max = int(os.environ.get("MC_MAX", max_violations))
        self.samples = []
        self.lock = threading.Lock()
        try:
            self.r = Runner()
        except BuildError as e:
            print("BUILD FAILED:", e)
            sys.exit(2)

    @property
    def full(self):
        return len(self.violations) >= self.max

    def is_known(self, key, config):
        for cfg, what in self.known.get(key, ()):
            if cfg == "*" or cfg == config or (cfg.endswith("*") and config.startswith(cfg[:-1])):
                return what
        return None

    def fail(self, key, config, msg, files):
        """A confirmed disagreement. files: name -> text, written to the replay directory."""
        what = self.is_known(key, config)
        if what is not None:
            with self.lock:
                if key not in self.known_seen:
                    self.known_seen[key] = what
                    print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, what, key[:200]))
            return
        with self.lock:
            d = "%s/replay/%s/%s" % (VERIF, self.prop, _sha(key, config)[:12])
            os.makedirs(d, exist_ok=True)
            with open(d + "/README", "w") as f:
                f.write("property %s\nkey: %s\nconfig: %s\n%s\n" % (self.prop, key, config, msg))
            for k, v in files.items():
                with open(d + "/" + k, "wb") as f:
                    f.write(v if isinstance(v, bytes) else v.encode("latin1"))
            self.violations.append((key, config, msg))
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("  key: %s\n  config: %s\n  %s" % (key[:500], config, msg[:1500].replace("\n", "\n  ")))
            sys.stdout.flush()

    def finish(self, **cov):
        self.cov.update(cov)
        self.cov.setdefault("samples", self.samples[:6] or ["none"])
        self.cov["compilations"] = self.r.compiles
        self.cov["program_runs"] = self.r.runs
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as f:
            json.dump(ev, f, indent=1)
        self.r.close()
        short = {k: v for k, v in self.cov.items() if isinstance(v, (int, float, bool))}
        print("%s %s: %s violations=%d known=%d %.1fs" % (self.prop, TIER, short, len(self.violations), len(self.known_seen),
                                                       time.time() - self.t0))
        sys.exit(1 if self.violations else 0)


# ---------------------------------------------------------------- batched cases
class Case:
    """One enumerated program. decl/body are wrapped in a procedure; glob goes to program level; '@N' in any of them
    is replaced by the case's number in its batch. expect: the exact output predicted by the reference model."""
    __slots__ = ("key", "decl", "body", "expect", "glob", "rc", "tag", "stdin")

    def __init__(self, key, body, expect, decl="", glob="", rc=0, tag=None, stdin=""):
        self.stdin = stdin
        self.key, self.body, self.expect, self.decl, self.glob, self.rc = key, body, expect, decl, glob, rc
        self.tag = tag


MARK = "~%d~"


def render(cases, header=""):
    if callable(header):
        header = header(cases)
    out = ["program p(input, output);\n", header]
    for i, c in enumerate(cases):
        if c.glob:
            out.append(c.glob.replace("@N", str(i)) + "\n")
    for i, c in enumerate(cases):
        out.append("procedure case%d;\n%s\nbegin\n%s\nend;\n" % (i, c.decl.replace("@N", str(i)), c.body.replace("@N", str(i))))
    out.append("begin\n")
    for i, c in enumerate(cases):
        out.append("writeln('~%d~'); case%d; writeln;\n" % (i, i))
    out.append("writeln('~%d~');\nend.\n" % len(cases))
    return "".join(out)


_seg = re.compile(r"~(\d+)~\n")


def segments(text):
    parts = _seg.split(text)
    res = {}
    for i in range(1, len(parts) - 1, 2):
        res[int(parts[i])] = parts[i + 1]
    return res


def run_cases(chk, cases, configs, batch=60, header="", stdin=b"", cpu=10, count=None):
    """Enumerates `cases` (iterable) x configs (list of flag tuples). Returns number of evaluations done."""
    n = [0]

    def batches():
        cur = []
        for c in cases:
            if chk.full:
                return
            if c.key in chk.known:
                yield [c]
                continue
            cur.append(c)
            if len(cur) >= batch:
                yield cur
                cur = []
        if cur:
            yield cur

    def jobs():
        for b in batches():
            for cfg in configs:
                if chk.full:
                    return
                yield b, cfg

    def one(job):
        b, cfg = job
        _run_batch(chk, b, cfg, header, stdin, cpu)
        return len(b)

    for _, k in pmap(one, jobs()):
        n[0] += k
    return n[0]


def _ok_single(c, r):
    if r.crc != 0:
        return "compilation failed"
    seg = segments(r.out.decode("latin1"))
    want = c.expect + "\n"
    if 0 not in seg or 1 not in segments_end(r.out.decode("latin1")):
        return "program did not run to completion (exit %s)" % r.rc
    if r.rc != 0:
        return "exit status %s" % r.rc
    if seg[0] != want:
        return "wrong output"
    return None


def segments_end(text):
    return set(int(x) for x in _seg.findall(text))


def _stdin(b, stdin):
    return stdin + "".join(c.stdin for c in b).encode("latin1")


def _run_batch(chk, b, cfg, header, stdin0, cpu):
    if chk.full:
        return
    src = render(b, header)
    stdin = _stdin(b, stdin0)
    r = chk.r.program(src, cfg, stdin, cpu=cpu)
    text = r.out.decode("latin1")
    if r.crc == 0 and r.rc == 0:
        seg = segments(text)
        bad = [i for i, c in enumerate(b) if seg.get(i) != c.expect + "\n"]
        if not bad and len(b) in segments_end(text):
            return
        if bad and len(b) > 1:
            hit = False
            for i in bad[:8]:
                hit |= _single(chk, b[i], cfg, header, stdin0, cpu)
            if not hit:  # only wrong next to other procedures: the batch itself is the failing program
                r2 = chk.r.program(src, cfg, stdin, cpu=cpu)
                seg2 = segments(r2.out.decode("latin1"))
                bad2 = [i for i, c in enumerate(b) if seg2.get(i) != c.expect + "\n"]
                if bad2 == bad:
                    c = b[bad[0]]
                    chk.fail(c.key + " (in batch)", " ".join(cfg), "wrong output only within a larger program\nexpected %r\ngot %r" %
                             (c.expect, seg2.get(bad[0])), replay_files(src, cfg, "case %d: %s" % (bad[0], c.expect), r2, stdin))
            return
    if len(b) == 1:
        _single(chk, b[0], cfg, header, stdin0, cpu)
        return
    # compile failure, crash or time-out somewhere in the batch
    if r.crc not in (0, 1) and r.crc is not None and _is_timeout(r.crc) or _is_timeout(r.rc):
        before = len(chk.violations) + len(chk.known_seen)
        for c in b:
            _single(chk, c, cfg, header, stdin0, 5)
            if chk.full:
                return
        return
    h = len(b) // 2
    before = len(chk.violations) + len(chk.known_seen)
    _run_batch(chk, b[:h], cfg, header, stdin0, cpu)
    _run_batch(chk, b[h:], cfg, header, stdin0, cpu)
    if len(chk.violations) + len(chk.known_seen) == before and not chk.full:
        r2 = chk.r.program(src, cfg, stdin, cpu=60, ccpu=120)
        if r2.crc != 0 or r2.rc != 0:
            chk.fail("batch " + b[0].key + " .. " + b[-1].key, " ".join(cfg), "a program made of these cases fails although each half works: "
                     + r2.brief(), replay_files(src, cfg, "", r2, stdin))


def _is_timeout(rc):
    return rc in ("timeout", -9, -24, -signal.SIGXCPU)


def _single(chk, c, cfg, header, stdin, cpu):
    """Runs one case alone, confirms by a second run, reports. True if it disagreed."""
    if chk.full:
        return True
    src = render([c], header)
    stdin = _stdin([c], stdin)
    r = chk.r.program(src, cfg, stdin, cpu=cpu)
    why = _ok_single(c, r)
    if not why:
        return False
    r = chk.r.program(src, cfg, stdin, cpu=30, ccpu=60)
    why = _ok_single(c, r)
    if not why:
        return False
    chk.fail(c.key, " ".join(cfg), "%s%s\nprogram: %s%s\nexpected %r\ngot %s" % (why, _where(c, r), c.decl, c.body, c.expect, r.brief()),
             replay_files(src, cfg, c.expect, r, stdin))
    return True


def _where(c, r):
    """where the output first differs from the prediction"""
    got = segments(r.out.decode("latin1")).get(0)
    if r.crc != 0 or got is None: return ""
    i = next((i for i, (a, b) in enumerate(zip(got, c.expect)) if a != b), min(len(got), len(c.expect)))
    return " at %d: expected %r, got %r" % (i, c.expect[max(0, i - 12):i + 24], got[max(0, i - 12):i + 24])


def replay_files(src, cfg, expect, r, stdin=b"", files=None):
    if isinstance(src, tuple): src, files = src
    return {**(files or {}), "p.pas": src, "expected.txt": expect, "actual.txt": r.brief(), "stdin.txt": stdin,
            "replay.sh": "#!/bin/sh\n# needs a built lacsap in /repo; compares with expected.txt by eye\nd=$(cd \"$(dirname \"$0\")\" && pwd)\n"
            "t=$(mktemp -d) && cp \"$d\"/*.pas \"$t\" && cd \"$t\" && /repo/lacsap %s p.pas && ./p < \"$d\"/stdin.txt\n" % " ".join(cfg)}


def main_guard(fn):
    try:
        fn()
    except BuildError as e:
        print("BUILD FAILED:", e)
        sys.exit(2)


def standard(prop, cases, g, header, cfgs, rule, more=(("-O1",), ("-O3",), ("-O1", "-g"), ("-m32", "-O0"), ("-m32", "-O2"), ("-no-memcpy", "-O1")), batch=50, **kw):
    """The usual check: every case under every configuration, compared with the reference's prediction."""
    chk = Check(prop, "exploration")
    cfgs = list(cfgs)
    if THOROUGH:
        cfgs += [c for c in more if c not in cfgs]
    keys = set()

    def gen():
        for c in cases():
            if c is None:
                continue
            if c.key in keys:
                raise AssertionError("duplicate key " + c.key)
            keys.add(c.key)
            if len(keys) % 211 == 1:
                chk.samples.append({"case": c.key, "body": (c.decl + c.body)[-300:], "expected": c.expect[:80]})
            yield c
    ev = run_cases(chk, gen(), cfgs, batch=batch, header=header, **kw)
    extra = {k: v for k, v in vars(g).items() if isinstance(v, int) and not k.startswith("_")} if g else {}
    chk.finish(evaluations=ev, distinct_nontrivial=len(keys), exhaustive=True, rule=rule, configurations=[" ".join(c) for c in cfgs], **extra)


# ---------------------------------------------------------------- tapes: one program, many operation sequences
class TapeProgram:
    """A program that reads operation sequences from its input, one per line, and answers each with one output line."""

    def __init__(self, chk, src, cfg, files=None):
        if isinstance(src, tuple): src, files = src
        self.chk, self.src, self.cfg = chk, src, cfg
        self.dir = chk.r.newdir()
        with open(self.dir + "/p.pas", "wb") as f:
            f.write(src.encode("latin1"))
        for k, v in (files or {}).items():
            with open(self.dir + "/" + k, "wb") as f:
                f.write(v if isinstance(v, bytes) else v.encode("latin1"))
        self.rc, out, err = chk.r.compile(self.dir, cfg)
        self.err = (err + out).decode("latin1")
        self.ok = self.rc == 0 and os.path.exists(self.dir + "/p")

    def lines(self, tapes, cpu=60):
        d = self.chk.r.newdir()
        os.link(self.dir + "/p", d + "/p")
        r = Res()
        r.crc = 0
        r.rc, r.out, r.err = self.chk.r.exec(d, ("\n".join(tapes) + "\n").encode("latin1"), cpu=cpu, fsize=64)
        shutil.rmtree(d, ignore_errors=True)
        return r, r.out.decode("latin1").split("\n")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run_tapes(chk, jobs, chunk=4000):
    """jobs: iterable of (name, src, cfg, list of (tape, expected line)). Returns the number of sequences run."""
    n = [0]

    def one(job):
        name, src, cfg, tapes = job
        c = " ".join(cfg)
        if chk.full: return 0
        p = TapeProgram(chk, src, cfg)
        try:
            if not p.ok:
                r = Res()
                r.crc, r.cerr = p.rc, p.err.encode("latin1")
                chk.fail(name + " compile", c, "the driver does not compile: " + p.err[-1500:], replay_files(src, cfg, "", r))
                return 0
            for i in range(0, len(tapes), chunk):
                part = tapes[i:i + chunk]
                r, got = p.lines([t for t, _ in part])
                for j, (t, want) in enumerate(part):
                    if j < len(got) and got[j] == want: continue
                    r1, g1 = p.lines([t], 10)
                    if r1.rc == 0 and g1 and g1[0] == want:
                        lo = max(0, j - 30)  # only wrong after other sequences
                        r1, g1 = p.lines([x for x, _ in part[lo:j + 1]], 20)
                        k = j - lo
                        if r1.rc == 0 and len(g1) > k and g1[k] == want:
                            r1, g1 = p.lines([x for x, _ in part[:j + 1]])
                            lo, k = 0, j
                        if r1.rc == 0 and len(g1) > k and g1[k] == want: continue
                        chk.fail("%s %s (after others)" % (name, t), c, "expected %r\ngot %s" % (want, r1.brief()[-1500:]),
                                 replay_files(src, cfg, want, r1, "\n".join(x for x, _ in part[lo:j + 1]).encode("latin1") + b"\n"))
                    else:
                        chk.fail("%s %s" % (name, t), c, "expected %r\ngot %s" % (want, r1.brief()[:1500]), replay_files(src, cfg, want, r1, (t + "\n").encode("latin1")))
                    if chk.full or r.rc != 0 and j >= len(got) - 1: break
                if chk.full: break
            return len(tapes)
        finally:
            p.close()
    for _, k in pmap(one, jobs):
        n[0] += k
    return n[0]


# ---------------------------------------------------------------- whole programs
class Prog:
    """One enumerated whole program with its predicted output and exit status."""
    __slots__ = ("key", "src", "expect", "rc", "stdin", "files", "args")

    def __init__(self, key, src, expect, rc=0, stdin="", files=None, args=()):
        self.key, self.src, self.expect, self.rc, self.stdin, self.files, self.args = key, src, expect, rc, stdin, files, args


def run_programs(chk, progs, configs):
    """Every program under every configuration: compiles, runs, same output and exit status as predicted."""
    n = [0]

    def go(p, cfg, cpu=10):
        return chk.r.program(p.src, cfg, p.stdin.encode("latin1"), files=p.files, args=p.args, cpu=cpu)

    def ok(p, r): return r.crc == 0 and r.rc == p.rc and r.out.decode("latin1") == p.expect

    def one(job):
        p, cfg = job
        r = go(p, cfg)
        if ok(p, r): return 1
        r = go(p, cfg, 30)
        if not ok(p, r):
            chk.fail(p.key, " ".join(cfg), "expected exit %s and %r\ngot %s\nprogram:\n%s" % (p.rc, p.expect[:1500], r.brief(), p.src[:3000]),
                     replay_files(p.src, cfg, p.expect, r, p.stdin.encode("latin1"), p.files))
        return 1

    def jobs():
        for p in progs:
            for cfg in configs:
                if chk.full: return
                yield p, cfg
    for _, k in pmap(one, jobs()):
        n[0] += k
    return n[0]
