#!/usr/bin/env python3
"""C02: arbitrary text through the tokenizer.  A coverage-guided fuzzer (ASan/UBSan, then MSan) on harness/tok.c, whose monitors check that the result is whole instructions, that labels point at
instructions, that errors are documented, that strict and deferred errors agree, that nothing depends on old memory contents and no line on another; then the same kinds of text are executed,
and programs at the limits of every table and as editor and start programs of the real system are translated."""
import json, os, struct, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from concurrent.futures import ThreadPoolExecutor
import fuzz

WORDS = list(fuzz.STAT) + list(fuzz.PAREN) + [f for f in fuzz.FUN] + list(fuzz.SFUN) + fuzz.NSYS + fuzz.SSYS + ["IF", "THEN", "ELSE", "ENDIF", "FOR", "TO", "STEP", "NEXT", "GOTO", "GOSUB", "ON", "RETURN", "DIM",
        "DATA", "READ", "RESTORE", "REM", "LABEL", "MEMSAFE", "ERR", "PEEK", "AND", "OR", "XOR", "NOT"]
PUNCT = list("()[]()[],,;;:::=+-*/%<>!&@'\"?. ") + ["==", "!=", "<=", ">=", "&H", "&B", "@A", "@B", "@LONG_LABEL_NAMES", "@SEVENTEEN_LETTERS", "'", "\"", "\"ABC\"", "A$", "A", "I", "B[", "C$[", "1", "99", "100", "0.5", ".5", "1.5",
        "524287", "524288", "99999999999", "&HFFFFF", "&B101", "1.2.3", "SIXTEEN_LETTERS_", "SEVENTEEN_LETTERS", "A()", "A[]", "PI()", "\t", "\n", "\0", "\x80", "\xff", "_", "$", "#", "~", "{"]
RAW = re.compile(rb"PEEK|POKE|MEMCOPY|MEMFILL|MEMSAFE", re.I)


def soup(rng):
    n = rng.choice([1, 3, 6, 12, 25, 50, 100])
    return "".join((rng.choice(WORDS) if rng.random() < .4 else rng.choice(PUNCT)) + rng.choice(["", "", "", " "]) for _ in range(n))[:100]


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(s) + 1)
        k = rng.randrange(8)
        if k == 0:
            s = s[:i] + s[i + rng.choice([1, 1, 2, 5]):]
        elif k == 1:
            s = s[:i] + rng.choice(PUNCT) + s[i:]
        elif k == 2:
            s = s[:i] + rng.choice(WORDS) + s[i:]
        elif k == 3:
            s = s[:i] + chr(rng.randrange(256)) + s[i + 1:]
        elif k == 4:
            j = rng.randrange(len(s) + 1)
            s = s[:i] + s[j:j + rng.choice([1, 4, 10])] + s[i:]
        elif k == 5:
            s = s[:i]
        elif k == 6:
            s = s.replace(*rng.choice([("(", "["), (")", "]"), (")", ""), ("(", ""), (",", ";"), (",", ""), (":", ""), ("\"", ""), (" ", ""), ("=", "=="), ("$", ""), ("1", "1E5"), ("@", "")]), 1)
        else:
            s = s.swapcase() if rng.random() < .5 else s + s
    return s[:100].replace("\r", " ")


def lines_of(rng, f, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .25:
            s = f.line()
        elif k < .65:
            s = mutate(rng, f.line())
        elif k < .9:
            s = soup(rng)
        elif k < .95:
            s = "".join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 10, 50, 100]))).replace("\r", "")
        else:
            s = rng.choice(["@A", "@B", "LABEL A", "label B ", "@A:@B", "", " ", "'", "REM", "@" + "X" * rng.randint(14, 18), "A" * rng.randint(14, 18) + "=1", "A" * rng.randint(14, 18) + "$=\"\"", "\"" * rng.randint(1, 99), "DATA " + "," * 90,
                            "(" * 50 + "1" + ")" * 49, "A" + "[A" * 33, "?" * 100, "1" * 100, "." * 100, "-" * 99 + "1", "A=" + "1+" * 49, "A,B;" * 25, "&H" + "F" * 98, "NEXT:" * 20, "\"" + "\xff" * 99, ";" * 100, ":" * 100, "TABSTEP=1:" * 10,
                            "?" + ".5," * 33, "?" + "-.5," * 24, "IF1THEN" * 14, "FOR A=0 TO 1:" * 7, "ON A GOTO @A" + ",@A" * 29])
        out.append(s[:100])
    return out


# ---------------------------------------------------------------- the fuzzer
def fuzz_job(a):
    binp, k, seed, runs, items, maxlen = a
    d = os.path.join(scratch(), "f%d" % k)
    os.makedirs(os.path.join(d, "c"))
    for i, b in enumerate(items):
        with open(os.path.join(d, "c", "%05d" % i), "wb") as f:
            f.write(b)
    with open(os.path.join(d, "dict"), "w") as f:
        for w in WORDS + ["==", "!=", "<=", ">=", "&H", "&B", "@A", "A$", "A[", "\\x0d"]:
            f.write('"%s"\n' % w)
    st = os.path.join(d, "stats")
    env = dict(ENV, TOK_STATS=st)
    cmd = [binp, "-runs=%d" % runs, "-seed=%d" % seed, "-timeout=60", "-rss_limit_mb=3000", "-max_len=%d" % maxlen, "-dict=" + os.path.join(d, "dict"), "-print_final_stats=1", "-artifact_prefix=" + d + "/", os.path.join(d, "c")]
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    log = p.stdout.decode("latin-1")
    arts = [x for x in os.listdir(d) if x.startswith(("crash-", "timeout-", "oom-", "leak-", "slow-unit-")) and not x.startswith("slow")]
    art = open(os.path.join(d, arts[0]), "rb").read() if arts else None
    if art is not None and arts[0].startswith("timeout-"):
        # once more, alone
        q = subprocess.run([binp, "-timeout=60", os.path.join(d, arts[0])], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode == 0:
            art, p.returncode = None, 0
    stats = {}
    if os.path.exists(st):
        stats = json.load(open(st))
    m = re.search(r"cov: (\d+) ft: (\d+) corp: (\d+)(?!.*cov: )", log, re.S)
    cov = tuple(int(x) for x in m.groups()) if m else (0, 0, 0)
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, log, art, stats, cov


def fuzzing(ck, flavor, rng, runs, per, label):
    binp = build(flavor, "tok.c")
    jobs = []
    for k in range(JOBS):
        f = fuzz.Fuzz(rng, .2)
        items = []
        for i in range(per):
            t = rng.choice(["\r", "\r", "\r", ":", "", "\"\r\"", "\rDATA "]).join(lines_of(rng, f, rng.choice([1, 1, 2, 4, 8]))) + "\r"
            items.append(bytes([rng.randrange(64), rng.randrange(8)]) + t.encode("latin-1", "replace")[:1500])
        jobs.append((binp, len(os.listdir(scratch())) + 1000 * k + (500000 if flavor == "fuzzm" else 0), rng.randrange(1, 1 << 31), runs, items, 1500))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(fuzz_job, jobs))
    for rc, log, art, stats, cov in res:
        for k, v in stats.items():
            if k != "errors":
                ck.count("%s_%s" % (label, k), v)
            else:
                for e, n in v.items():
                    ck.count("%s_error_%s" % (label, E.name(int(e)).replace("ERR_", "")), n)
        ck.cov["%s_edges" % label] = max(ck.cov.get("%s_edges" % label, 0), cov[0])
        ck.count("%s_corpus" % label, cov[2])
        for i in range(cov[2]):
            ck.distinct.add((label, cov, i))
        ck.evals += stats.get("inputs", 0)
        if rc or art is not None:
            m = re.search(r"MONITOR (\w+): ([^\n]*)", log)
            r = Result()
            r.code, r.err = rc or 1, log
            if m:
                key, text = "monitor-" + m.group(1), m.group(2)
            elif "libFuzzer: timeout" in log:
                key, text = "hang", "translation does not end"
            elif "libFuzzer: out-of-memory" in log:
                key, text = "memory", "translation uses up memory"
            else:
                _, key, text = classify(r)
                if art is None:
                    raise HarnessError("fuzzer: " + log[-1500:])
            ck.violation(key, text, "tok input, options byte %s, text:\n%s\nhex %s\n%s" % (hex(art[0]) if art else "?", art[2:].decode("latin-1").replace("\r", "\n") if art else "?", art.hex() if art else "?", log[-1500:]))
    return res


# ---------------------------------------------------------------- execution and limits
def prgfile(text):
    body = b"PETC0300RPRG" + struct.pack("<III", 0, 0, len(text)) + text
    return (b"PX01" + struct.pack("<II", len(body), 0) + b"P".ljust(8, b"\0") + b"\0" * 16 + body).hex()


def limits(rng):
    """programs that reach the end of every table"""
    M = 524288
    one = lambda l: (l[:100] + "\r") * (M // (len(l[:100]) + 1))
    long = lambda l: l[:2000] + "\r"
    full = lambda l: (l + "\r") * (M // (len(l) + 1))
    lab = lambda n: "".join("@L%d\r" % i for i in range(n)) + "GOTO @L%d\r" % (n - 1)
    return [one("?" + ".5," * 32 + ".5"), one("A=.5"), one("\""), one("?"), one(")"), one("A"), one("@A"), one("DATA " + "1," * 47), one("A$=\"" + "x" * 90 + "\""), one(":" * 100), one(""), one(" " * 99), one("'" * 99),
            one("TABSTEP=1:MEM$=\"\":ICONPUSE=1"), one("IF.5THENA=.5ELSEA=.5"), one("FORA=.5TO.5STEP.5"), one("?" + "-.5;" * 24), one("\xff" * 99), one("A[.5]=.5"), lab(2047), lab(2048), lab(2049), lab(20000), "LABEL X\r" * 3, "\r" * 9999, "\r" * 10000,
            "\r" * 10001, "A=1\r" * 10001, "A=1\r" * 30000, ")\r" * 30000, one("?ERR"), one("0" * 100), one("&HFFFFF;" * 12), one("?" + "100," * 24), one("AB=AB"),
            long("A" * 300), long("\"" + "x" * 255), long("\"" + "x" * 256), long("1" * 300), long("&H" + "1" * 300), long("@" + "A" * 300), long("DATA " + "x" * 252), long("DATA " + "x" * 253), long("DATA " + "x" * 254), long("DATA " + "x" * 255),
            long("DATA " + "x" * 256), long("DATA" + ",1" * 900), long("IF" + "?" * 97), long("IF" + "?" * 98), long("IF" + "?" * 99), long("?" * 100), long("?" * 101), long("FOR:" * 40), long("A=1:" * 99), long("A,B;" * 200),
            long("FORA=1TO2:" * 12 + "?" * 20), long(" " * 1000 + "A=1"), long("'" * 2000), long("(" * 150), long("A[" * 150), long("DIM A[1]," * 30), full(":".join(["A$=\"" + "x" * 250 + "\""] * 24)), full(";".join(["\"" + "x" * 254 + "\""] * 50)),
            full("?" + ";".join(["\"" + "x" * 254 + "\""] * 49)), "A=1" * 170000 + "\r", "x" * 524287 + "\r", "'" * 524287 + "\r", "A=1:" * 131071 + "\r", "\"" * 524287 + "\r"]


def run():
    ck = Check("C02")
    ck.rule = "inputs that reached code no input before them reached (the fuzzer's corpus), and distinct outcomes of the executed programs"
    rng = ck.rng
    fuzzing(ck, "fuzz", rng, ck.n(45000, 500000), ck.n(1200, 6000), "asan")
    fuzzing(ck, "fuzzm", rng, ck.n(9000, 80000), ck.n(400, 3000), "msan")
    known = set(E._d.values())
    binp = build("asan")
    cases = []
    # what was translated is executed
    for i in range(ck.n(3000, 20000)):
        f = fuzz.Fuzz(rng, .2)
        acts = ["sys " + rng.choice(["2048 4096 262144 1", "2048 4096 262144 1", "64 64 4096 1", "16 32 512 1"]), "fs 1", "frames - 10"]
        for _ in range(rng.choice([3, 8])):
            src = "\r".join(lines_of(rng, f, rng.choice([1, 1, 2, 5]))).encode("latin-1", "replace") + b"\r"
            if RAW.search(src):
                continue
            acts.append((prg if rng.random() < .3 else direct)(src, rng.randrange(8), 30))
        acts += ["frames - 3", direct("R=0\r"), "pool", "inv"]
        cases.append(Case("x%d" % i, acts, "x"))
    # every statement and function with every short combination of operands
    ATOMS = [",", ";", "1", "A$", "@A", "A", "B[1]", "-", "=", ")", "(", "PI()", "\"\"", ".5"]
    NAMES = [w for w in sorted(set(WORDS)) if not RAW.search(w.encode())]
    shapes = [""] + [a for a in ATOMS] + [a + b for a in ATOMS for b in ATOMS]
    if THOROUGH:
        shapes += [a + b + c for a in ATOMS for b in ATOMS for c in ATOMS]
    else:
        shapes += ["".join(rng.choice(ATOMS) for _ in range(rng.choice([3, 4, 5]))) for _ in range(30)]
    for w in NAMES:
        lines = []
        for x in shapes:
            lines += [x + w, w + x] if not x or rng.random() < .5 else [w + x, x + w]
            if x:
                lines += [rng.choice(["A=", "?", "A$=", "B[", "IF", "ON"]) + w + "(" + x + ")", rng.choice(ATOMS) + w + rng.choice([" ", "(", ""]) + x]
        n = 400
        for k in range(0, len(lines), n):
            acts = ["sys", "fs 1", "frames - 3"]
            part = lines[k:k + n]
            for j in range(0, n, 20):
                acts += [direct("%s\r@A\r" % x, rng.choice([0, 0, 0, 1]), 5) for x in part[j:j + 20]] + [direct("R=0\r"), "pool"]
            cases.append(Case("e%s_%d" % (w, k), acts + ["inv"], "e"))
    L = limits(rng)
    for i, t in enumerate(L):
        for o in ((0,) if not THOROUGH else (0, 1, 2, 3, 4, 6)):
            acts = ["sys", "fs 1", "frames - 3", prg(t, o, 100), direct("R=0\r"), "inv"]
            cases.append(Case("l%d_%d" % (i, o), acts, "l"))
    # as the editor and as the start program of the real system
    for i in range(ck.n(250, 2500)):
        f = fuzz.Fuzz(rng, .2)
        t = "\r".join(lines_of(rng, f, rng.choice([1, 2, 6, 20]))).encode("latin-1", "replace") + b"\r"
        if i < len(L):
            t = L[i].encode("latin-1")
        if i % 5 == 0:
            t = (rng.choice(["?" + "-.5," * 24, "LABEL A", "@A", "GOTO @A", "GOSUB \"@B\"", "?.5", "A=.5", "IF.5THENA=.5", "DATA ,,", "\"", "@", "MEM$=A$", "READ A", "RESTORE @X"])[:99] + "\r").encode() * rng.choice([1, 2, 100])
        if RAW.search(t):
            continue
        t = t[:524288]
        start = rng.random() < .4
        acts = ["sys", "fs 1", "wfile programs/%s.PTC %s" % ("P" if start else "EDITOR", prgfile(t)), "frames %s 5" % rng.choice(["-", "k0041;k000d", "k003f;k0031;k000d", "t20,180", ";".join("k%04x;k000d" % rng.randrange(1, 65536) for _ in range(5))]),
                "shell %s 60" % ("P" if start else "-")]
        cases.append(Case("s%d" % i, acts, "s"))
    res = run_cases(binp, cases, cpu=40, wall=180)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        ends = []
        for o in r.obs:
            if o["t"] == "run":
                ends.append(o["err"])
                ck.count("end_" + ("INTERRUPTED" if o["err"] == 9999 else E.name(o["err"]).replace("ERR_", "")))
                if o["err"] != 9999 and o["err"] not in known:
                    ck.violation("code", "undocumented error code %d" % o["err"], case_text(c))
            elif o["t"] == "inv" and o["v"]:
                ck.violation("state:" + o["v"][0][:60], "state out of its range: %s" % o["v"], case_text(c))
            elif o["t"] == "pool" and o["bad"]:
                ck.violation("pool", "string pool: " + o["why"], case_text(c))
            elif o["t"] == "shell":
                ends.append(o["ret"])
                ck.count("system_starts")
        ck.count({"x": "executed_texts", "e": "statement_shape_cases", "l": "limit_programs", "s": "editor_and_start_programs"}[c.meta])
        ck.case((c.meta, tuple(ends)), True)
    return ck.finish(min_evals=2000)


if __name__ == "__main__":
    main(run, "C02")
