"""Shared machinery: builds the instrumented driver from /repo's working tree,
runs cases through it, turns outcomes into verdicts and writes evidence."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- building
COMMON = ["-std=gnu11", "-g", "-DPC", "-w", "-fno-omit-frame-pointer"]
SAN = {
    # alignment: the bytecode and the string pool hold packed data by design
    # shift-base: left shifts into the sign bit are used as plain bit twiddling
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,shift-base,function",
             "-fno-sanitize-recover=all"],
    "msan": ["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
    "fuzz": ["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=alignment,shift-base,function", "-fno-sanitize-recover=all"],
    "fuzzm": ["-O1", "-fsanitize=fuzzer-no-link,memory", "-fno-sanitize-recover=all"],
    "cov": ["-O0", "-fprofile-instr-generate", "-fcoverage-mapping"],
}


def repo_sources(display=False):
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "source")):
        rel = os.path.relpath(d, os.path.join(REPO, "source"))
        if (rel.startswith("graphics/pc") and not display) or rel.startswith("graphics/nds"):
            continue
        for f in fs:
            if f.endswith(".c") and not (rel == "." and f == "main.c") and f != "opengl_test.c":
                out.append(os.path.join(d, f))
    return sorted(out)


def include_flags():
    incs = [os.path.join(REPO, "source", d) for d in
            (".", "graphics/pc", "graphics", "interpreter", "subsystem", "extension")]
    for d, ds, _ in os.walk(os.path.join(REPO, "source")):
        if d not in incs and "graphics" not in d:
            incs.append(d)
    return ["-I" + i for i in incs]


def tree_hash(extra=()):
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "source"), os.path.join(REPO, "util"), os.path.join(REPO, "resources"), HARNESS):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            if "external" in ds:
                ds.remove("external")
            for f in sorted(fs):
                if f.endswith((".c", ".h", ".inc", ".cpp", ".frag")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:16]


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise HarnessError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


WRAPS = {
    "drv.c": ("sbc_malloc", "sbc_calloc", "reset_memory", "fopen", "freopen", "opendir", "remove", "unlink", "rename", "open",
              "thrd_sleep", "thrd_yield", "nanosleep", "usleep", "sched_yield", "get_time",
              "time", "gettimeofday", "clock_gettime", "timespec_get"),
    "tok.c": (),
    "conc.c": ("mtx_init", "mtx_lock", "mtx_trylock", "mtx_timedlock", "mtx_unlock", "mtx_destroy"),
}


WRAPS["drvd.c"] = WRAPS["drv.c"]
WRAPS["front.c"] = WRAPS["drv.c"] + ("init_system",)
DISPLAY = ("drvd.c", "front.c")


def build(flavor="asan", main="drv.c", libs=()):
    """Compile /repo's sources plus a harness main; returns the binary path."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash((flavor, main, SAN[flavor], COMMON))
    name = os.path.splitext(main)[0]
    final = os.path.join(BUILD, "%s-%s-%s" % (name, flavor, key))
    binp = os.path.join(final, name)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(binp):
            return binp
        old = sorted((d for d in os.listdir(BUILD) if d.startswith(name + "-" + flavor)), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-6]:  # keep the latest builds only
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        try:
            flags = COMMON + SAN[flavor] + include_flags()
            jobs, objs = [], []
            for i, s in enumerate(repo_sources(main in DISPLAY)):
                o = os.path.join(tmp, "%03d.o" % i)
                objs.append(o)
                jobs.append(["clang"] + flags + ["-include", os.path.join(HARNESS, "quiet.h"), "-c", s, "-o", o])
            o = os.path.join(tmp, "main.o")
            objs.append(o)
            jobs.append(["clang"] + flags + ["-I" + HARNESS, "-c", os.path.join(HARNESS, main), "-o", o])
            if main == "front.c":
                o = os.path.join(tmp, "front_main.o")
                objs.append(o)
                jobs.append(["clang"] + flags + ["-include", os.path.join(HARNESS, "quiet.h"), "-Dmain=sbc_main", "-c", os.path.join(REPO, "source", "main.c"), "-o", o])
            if main in DISPLAY:
                # the fragment shader becomes C++; each uniform gets a name to set it by
                with open(os.path.join(REPO, "resources", "bgsp.frag")) as f:
                    glsl = f.read()
                with open(os.path.join(tmp, "shader_src.inc"), "w") as f:
                    f.write(glsl)
                with open(os.path.join(tmp, "shader_uni.inc"), "w") as f:
                    f.write("".join("U(%s)\n" % u for u in re.findall(r"^\s*uniform\s+\w+\s+(\w+)", glsl, re.M)))
                for s, cc, std in (("sfstub.c", "clang", flags), ("shader.cpp", "clang++", [x for x in flags if not x.startswith("-std")] + ["-std=c++17", "-I" + tmp])):
                    o = os.path.join(tmp, s + ".o")
                    objs.append(o)
                    jobs.append([cc] + std + ["-c", os.path.join(HARNESS, s), "-o", o])
            with ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(_run, jobs))
            wrap = ["-Wl,--wrap=" + x for x in WRAPS[main]]
            _run(["clang"] + [x.replace("fuzzer-no-link", "fuzzer") for x in SAN[flavor]] + objs + wrap + ["-lm", "-lpthread"] + list(libs) + ["-o", os.path.join(tmp, name)])
            for ob in objs:
                os.unlink(ob)
            if os.path.exists(final):
                shutil.rmtree(final)
            os.chmod(tmp, 0o755)   # unprivileged cases name their functions too
            os.rename(tmp, final)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return binp


# ---------------------------------------------------------------- running
class Case:
    __slots__ = ("id", "acts", "meta")

    def __init__(self, cid, acts, meta=None):
        self.id, self.acts, self.meta = cid, list(acts), meta


class Result:
    __slots__ = ("obs", "code", "err")

    def __init__(self):
        self.obs, self.code, self.err = [], None, ""

    def get(self, t, n=0):
        k = 0
        for o in self.obs:
            if o.get("t") == t:
                if k == n:
                    return o
                k += 1
        return None

    def all(self, t):
        return [o for o in self.obs if o.get("t") == t]


def parse_out(path):
    res, cur, done, last = {}, None, False, None
    with open(path, "r", errors="replace") as f:
        for line in f:
            if line.startswith("CASE "):
                cur = Result()
                res[line[5:].strip()] = cur
            elif line.startswith("EXIT "):
                p = line.split()
                last = res.get(p[1])
                if last is not None:
                    last.code = int(p[2])
            elif line.startswith("ERR "):
                if last is not None:
                    last.err = bytes.fromhex(line[4:].strip()).decode("latin-1")
            elif line.startswith("DONE"):
                done = True
            elif line.startswith("{") and cur is not None:
                try:
                    cur.obs.append(json.loads(line))
                except ValueError:
                    pass
    return res, done


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
ENV["MSAN_OPTIONS"] = "exitcode=99:abort_on_error=0:handle_abort=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_signal_unsafe=0"
ENV["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="sbcverif-")
        os.chmod(_scratch, 0o755)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


import itertools
_seq = itertools.count(1)


def _run_chunk(binp, cases, cpu, wall):
    d = os.path.join(scratch(), "w%d" % next(_seq))
    os.makedirs(d)
    os.chmod(d, 0o755)
    cf, of = os.path.join(d, "cases"), os.path.join(d, "out")
    with open(cf, "w") as f:
        for c in cases:
            f.write("CASE %s\n%s\nEND\n" % (c.id, "\n".join(c.acts)))
    p = subprocess.run([binp, cf, of, str(cpu), str(wall)], cwd=d, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    res, done = parse_out(of) if os.path.exists(of) else ({}, False)
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode or not done:
        raise HarnessError("driver exit %s: %s" % (p.returncode, p.stdout.decode(errors="replace")[-800:]))
    return res


def run_cases(binp, cases, cpu=20, wall=120, jobs=None, retry=True):
    """Runs cases; returns {id: Result}.  Cases ended by a watchdog are run
    once more, alone and with more time, before anything is concluded."""
    jobs = jobs or JOBS
    cases = list(cases)
    parts = jobs * max(1, -(-len(cases) // (jobs * 250)))
    chunks = [cases[i::parts] for i in range(parts)]
    chunks = [c for c in chunks if c]
    res = {}
    scratch()
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda c: _run_chunk(binp, c, cpu, wall), chunks):
            res.update(r)
    for c in cases:
        r = res.get(c.id)
        if r is None or r.code is None:
            raise HarnessError("no result for case %s" % c.id)
        if r.code in (97, 98):
            raise HarnessError("harness failure in %s: %s" % (c.id, r.err[:500]))
    if retry:
        again = [c for c in cases if is_timeout(res[c.id])]
        for c in again[:6]:
            res[c.id] = _run_chunk(binp, [c], cpu * 3, wall * 3)[c.id]
    return res


def is_timeout(r):
    return r.code in (1000 + 24, 1000 + 9, 1000 + 14)  # XCPU, KILL, ALRM


def classify(r):
    """(kind, key, text) for an abnormal end, None for a normal one."""
    if r.code == 0:
        return None
    if r.code == 1000 + 14:
        return ("inconclusive", "wall-timeout", "wall-clock watchdog")
    if r.code in (1000 + 24, 1000 + 9):
        return ("hang", "hang", "CPU watchdog: no progress")
    err = r.err
    kind = "exit%d" % r.code
    m = re.search(r"(Address|Memory)Sanitizer: ([\w-]+)", err)
    if m:
        kind = ("asan-" if m.group(1) == "Address" else "msan-") + m.group(2)
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if m2:
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|'[^']*'|-?\d[\d.e+]*", "", m2.group(1)).lower()).strip("-")[:60]
    m3 = re.search(r"Assertion `(.*?)' failed", err)
    if m3:
        kind = "assert"
    fn = "?"
    for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\w+) (\S+)", err):
        if "/source/" in fm.group(2):
            fn = fm.group(1)
            break
    m4 = re.search(r"/source/[\w/.]*?(\w+)\.[ch]:\d+(?::\d+)?: (?:runtime error|.*Assertion)", err)
    if fn == "?" and m4:
        fn = m4.group(1)
    head = "\n".join([l for l in err.splitlines() if l.strip()][:14])
    return ("crash", "%s@%s" % (kind, fn), head[:2500])


# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol = []          # (key, text, replay payload)
        self.evals = 0
        self.distinct = set()
        self.inconclusive = 0
        self.samples = []
        self.cov = {}
        self.rule = ""
        self.rng = random.Random("%s/%d/%s" % (pid, SEED, TIER))
        self.known = load_known(pid)
        self.assumptions = []

    def n(self, quick, thorough=None):
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        return max(1, int((thorough if THOROUGH and thorough else quick) * scale))

    def count(self, k, v=1):
        self.cov[k] = self.cov.get(k, 0) + v

    def case(self, ident=None, nontrivial=True):
        self.evals += 1
        if nontrivial and ident is not None:
            self.distinct.add(hash(ident))

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, text, replay=None):
        self.viol.append((key, text, replay))

    def crash(self, r, case, extra=""):
        """Routes an abnormal end; returns True when the case ended abnormally."""
        c = classify(r)
        if c is None:
            return False
        kind, key, text = c
        if kind == "inconclusive":
            self.inconclusive += 1
            return True
        self.violation(key, (extra + "\n" if extra else "") + text, case_text(case))
        return True

    def finish(self, min_evals=1):
        real, known_hit = [], {}
        for key, text, rep in self.viol:
            k = match_known(self.known, key)
            if k:
                known_hit[k["key"]] = k
            else:
                real.append((key, text, rep))
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = dict(self.cov)
        cov["evaluations"] = self.evals
        cov["distinct_nontrivial"] = len(self.distinct)
        cov["rule"] = self.rule
        cov["samples"] = self.samples
        cov["inconclusive"] = self.inconclusive
        cov["known_findings_seen"] = sorted(known_hit)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(real), "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if real:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            seen = {}
            for key, text, rep in real:
                seen.setdefault(key, []).append((text, rep))
            for i, (key, items) in enumerate(sorted(seen.items(), key=lambda kv: -len(kv[1]))[:12]):
                path = os.path.join(rd, "%s-%d.txt" % (self.pid, i))
                with open(path, "w") as f:
                    f.write("property %s key %s occurrences %d seed %d tier %s\n\n%s\n\n%s\n" % (
                        self.pid, key, len(items), SEED, TIER, items[0][0], items[0][1] or ""))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  key=%s (%d occurrence(s))" % (key, len(items)))
                print("  " + items[0][0].replace("\n", "\n  ")[:1500])
            sys.stdout.flush()
            return 1
        if self.evals < min_evals:
            print("INCONCLUSIVE: only %d evaluations (expected at least %d)" % (self.evals, min_evals))
            return 2
        print("OK property=%s evaluations=%d distinct=%d inconclusive=%d wall=%.1fs" % (
            self.pid, self.evals, len(self.distinct), self.inconclusive, time.time() - self.t0))
        return 0


def case_text(case):
    out = ["CASE %s" % case.id]
    for a in case.acts:
        out.append(a)
        p = a.split()
        if p and p[0] in ("prg", "direct") and len(p) > 1:
            try:
                out.append("   # " + bytes.fromhex(p[1] if p[1] != "-" else "").decode("latin-1").replace("\r", "\n   # "))
            except ValueError:
                pass
    out.append("END")
    return "\n".join(out)


# ---------------------------------------------------------------- known findings
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


def load_known(pid):
    """lines: `known: property=<id> key=<regex> <what fails>`; `fixed:` lines suppress nothing"""
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "what": m.group(3).strip()})
    return out


def match_known(known, key):
    for k in known:
        if re.fullmatch(k["key"], key):
            return k
    return None


# ---------------------------------------------------------------- helpers
def hx(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() or "-"


def prg(src, opts=0, soft_ms=0):
    return "prg %s %d %d" % (hx(src), opts, soft_ms)


def direct(src, opts=0, soft_ms=0):
    return "direct %s %d %d" % (hx(src), opts, soft_ms)


def units(h):
    """hex code-unit string from the driver -> list of ints"""
    return [int(h[i:i + 4], 16) for i in range(0, len(h), 4)]


def main(fn, pid):
    """Entry point wrapper: exit status 0/1 are verdicts, 2 is a harness failure."""
    try:
        rc = fn()
    except HarnessError as e:
        print("HARNESS-ERROR %s: %s" % (pid, e))
        rc = 2
    sys.exit(rc)


# ---------------------------------------------------------------- error codes
def _errcodes():
    """names -> numbers of enum err_code, taken from the tree under test"""
    out, n, inside = {}, 0, False
    try:
        txt = open(os.path.join(REPO, "source", "error.h"), errors="replace").read()
    except OSError:
        return out
    txt = re.sub(r"//[^\n]*|/\*.*?\*/", "", txt, flags=re.S)
    m = re.search(r"enum\s+err_code\s*\{(.*?)\}", txt, re.S)
    for item in (m.group(1).split(",") if m else []):
        item = item.strip()
        if not item:
            continue
        if "=" in item:
            nm, v = [x.strip() for x in item.split("=")]
            n = int(v, 0)
        else:
            nm = item
        out[nm] = n
        n += 1
    return out


class _E:
    def __init__(self):
        self._d = _errcodes()

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        return self._d.get("ERR_" + k, -1)

    def name(self, n):
        for k, v in self._d.items():
            if v == n:
                return k
        return str(n)


E = _E()
I32MIN, I32MAX = -2**31, 2**31 - 1


def wrap32(n):
    n &= 0xFFFFFFFF
    return n - (1 << 32) if n >> 31 else n


def tab(prog, ins, outs, rows, opts=0):
    return "tab %d %s %s %s %s" % (opts, hx(prog), ",".join(ins) or "-", ",".join(outs) or "-",
                                   ";".join(",".join(str(x) for x in r) for r in rows))


def hexs(s):
    """str / list of code units -> driver hex"""
    u = [ord(c) for c in s] if isinstance(s, str) else s
    return "".join("%04x" % c for c in u) or "-"


def uns(h):
    """driver hex -> tuple of code units (None for null)"""
    return None if h is None else tuple(units(h))


INTERESTING = [0, 1, -1, 2, -2, 3, 4095, 4096, -4096, 4097, -4095, -4097, 8192, 2048, -2048, 6144, -6144, 12288, 40960, 409600,
               I32MAX, I32MIN, I32MAX - 1, I32MIN + 1, I32MAX - 4095, I32MIN + 4095, I32MIN + 4096, I32MAX - 4096,
               1 << 30, -(1 << 30), 1 << 20, -(1 << 20), (1 << 20) + 1, 3 << 29, 46341, -46341, 65536, -65536, 65535, 32767, -32768, 1234567, -7654321]


def rnd_fixp(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice(INTERESTING)
    if k < 0.5:
        return rng.randint(I32MIN, I32MAX)
    if k < 0.7:
        return wrap32(rng.randint(-300, 300) * 4096 + rng.choice([0, 0, 0, 1, -1, 2048, 409]))
    b = rng.randint(0, 31)
    return wrap32(rng.choice([1, -1]) * rng.randint(0, (1 << b)))
