#!/usr/bin/env python3
"""C30: the real converter, built with ASan/UBSan and with MSan, run on well-formed, damaged and foreign files in scratch folders; exit status and every output file compared with the payload the format defines."""
import os, shutil, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import _run

CHR, COL = 8192, 512
FLAV = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=shift-base"],
        "msan": ["-fsanitize=memory", "-fsanitize-memory-track-origins"]}


def converter(flavor):
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(REPO, "util", "ntr_to_ptc.c")
    out = os.path.join(BUILD, "ntr-%s-%s" % (flavor, tree_hash((flavor, FLAV[flavor]))))
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for f in os.listdir(BUILD):
                if f.startswith("ntr-%s-" % flavor):
                    os.unlink(os.path.join(BUILD, f))
            _run(["clang", "-std=gnu11", "-g", "-O1", "-w", "-fno-omit-frame-pointer"] + FLAV[flavor] + [src, "-o", out + ".tmp"])
            os.rename(out + ".tmp", out)
    return out


def ncgr(rng, payload, size=None, magic=b"RGCN"):
    n = len(payload) + 0x20 if size is None else size
    head = magic + rng.randbytes(12) if rng.random() < .5 else magic + struct.pack("<HHIHH", 0xfeff, 0x101, len(payload) + 0x30, 0x10, 1)
    return head + b"RAHC" + struct.pack("<I", n & 0xffffffff) + (rng.randbytes(24) if rng.random() < .5 else struct.pack("<HHIIIII", 0xffff, 0xffff, 3, 0, 0, len(payload), 0x18)) + payload


def nclr(rng, payload, size=None, magic=b"RLCN"):
    n = len(payload) + 0x18 if size is None else size
    return magic + rng.randbytes(12) + b"TTLP" + struct.pack("<I", n & 0xffffffff) + rng.randbytes(16) + payload


def data(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return rng.randbytes(n)
    if k == 1:
        return bytes([rng.choice([0, 0xff, 0x1a, 0x0d])]) * n
    if k == 2:  # every bank differs from every other, and every byte from its neighbours
        return bytes((i * 7 + (i >> 8) * 13 + (i >> 13) * 29) & 255 for i in range(n))
    return b"".join(rng.choice([b"RGCN", b"RLCN", b"PETC0100RCHR", b"\0" * 64, rng.randbytes(31)]) for _ in range(n // 4 + 1))[:n]


def name(rng, n):
    return "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") for _ in range(n))


def make(c):
    """yields (tag, args, files before, expected files or None for rejection, setup)"""
    r = c.rng
    T = []

    def add(tag, content, out, want, argv=None, setup=None, either=False):
        T.append((tag, content, out, want, argv, setup, either))

    def chrs(p, payload):
        return {"%s%d.PTC" % (p, i): b"PETC0100RCHR" + payload[i * CHR:(i + 1) * CHR] for i in range(len(payload) // CHR)}

    def cols(p, payload):
        return {p + ".PTC": b"PETC0100RCOL" + payload[:COL]}

    reps = c.n(4, 30)
    for _ in range(reps):
        for k in range(1, 11):
            p, d = name(r, 3), data(r, k * CHR)
            add("ncgr-%d" % k, ncgr(r, d), p, chrs(p, d))
            p = name(r, 3)
            add("ncgr-trailing", ncgr(r, d, len(d) + 0x20) + data(r, r.choice([1, 4, 8192, 20000])), p, chrs(p, d))
            # sizes that are no multiple of a bank: only whole banks can be written
            x = d + data(r, r.choice([1, 2, 4095, 4096, 8190, 8191]))
            add("ncgr-rest", ncgr(r, x), p, chrs(p, x), either=True)
            # the file ends before its payload does
            for cut in {1, 2, r.randint(1, len(d)), r.choice([len(d), len(d) - 1, CHR, CHR - 1]), (k - 1) * CHR or 1}:
                if 0 < cut <= len(d):
                    add("ncgr-cut", ncgr(r, d[:-cut] if cut < len(d) else b"", len(d) + 0x20), name(r, 3), None)
        for n in (COL, COL + 1, COL + 2, 1024, 3 * COL, 8192, 16 * COL, 100000):
            p, d = name(r, 4), data(r, n)
            add("nclr-%d" % n, nclr(r, d), p, cols(p, d))
            add("nclr-trailing", nclr(r, d) + data(r, r.choice([1, 40, 9000])), p, cols(p, d))
        for n in (0, 1, 2, 255, 256, 510, 511):
            d = data(r, n)
            add("nclr-short", nclr(r, d), name(r, 4), None)
            add("nclr-cut", nclr(r, d, 0x18 + r.choice([COL, COL, 1024, 8192, 0xfffffff0])), name(r, 4), None)
            add("nclr-small", nclr(r, data(r, COL), 0x18 + n), name(r, 4), None)
        for n in (0, 1, 4096, 8191):
            add("ncgr-small", ncgr(r, data(r, n)), name(r, 3), None)
            add("ncgr-small", ncgr(r, data(r, 3 * CHR), 0x20 + n), name(r, 3), None)
        for n in (0, 1, 4, 0x17, 0x18, 0x1f, 0x20, 0x7fffffff, 0x80000000, 0x80000020, 0x8000001f, 0xffffffff, 0xffffffe0, 0xfffffff0, 0x10000020, 0x20002020,
                  0x20 + 11 * CHR, 0x20 + 12 * CHR, 0x20 + 100 * CHR, 0x1000000):
            add("ncgr-size", ncgr(r, data(r, r.choice([0, 100, CHR, 4 * CHR])), n), name(r, 3), None)
            if n < 0x18 + COL:
                add("nclr-size", nclr(r, data(r, r.choice([0, 100, COL, 4 * COL])), n), name(r, 4), None)
        for big in (11, 12, 13, 20):
            add("ncgr-many", ncgr(r, data(r, big * CHR)), name(r, 3), None)
        # foreign or damaged magic
        for m in (b"NCGR", b"NCLR", b"RGCN"[::-1], b"RGCM", b"RGC\0", b"RG", b"R", b"", b"rgcn", b"XGCN", b"RLCX", b"RLC", b"RXCN", b"RCSN", b"PETC", b"PX01", b"\0\0\0\0", r.randbytes(4)):
            full = ncgr(r, data(r, CHR), magic=m) if r.random() < .5 else nclr(r, data(r, COL), magic=m)
            add("magic", full, name(r, r.choice([3, 4])), None)
            add("magic-only", m, name(r, r.choice([3, 4])), None)
    # every truncation point of the headers, and some behind them
    for make1, ln, hd in ((ncgr, CHR, 0x30), (nclr, COL, 0x28)):
        full = make1(r, data(r, ln))
        for cut in list(range(0, hd + 3)) + [len(full) - 1, len(full) - 2, len(full) // 2]:
            add("truncated", full[:cut], name(r, 3 if make1 is ncgr else 4), None)
    # names that cannot be output names of this type
    g, l = ncgr(r, data(r, CHR)), nclr(r, data(r, COL))
    for n in list(range(0, 16)) + [63, 255, 256, 1000, 4096]:
        if n != 3:
            add("name", g, name(r, n), None)
        if n != 4:
            add("name", l, name(r, n), None)
    # argument counts
    for a in ([], ["in"], ["in", "ABC", "X"], ["in", "ABC", "ABCD", "E"]):
        add("args", g, "ABC", None, argv=a)
    add("missing", None, "ABC", None)
    add("missing", None, "ABCD", None)
    add("folder", "dir", "ABC", None)
    add("folder", "dir", "ABCD", None)
    # outputs that cannot be written
    for k in (1, 2, 3, 4):
        d = data(r, k * CHR)
        for i in range(k):
            for kind in ("dir", "full"):
                add("nowrite", ncgr(r, d), "BGU", None, setup=("BGU%d.PTC" % i, kind))
    for kind in ("dir", "full"):
        add("nowrite", nclr(r, data(r, COL)), "COL0", None, setup=("COL0.PTC", kind))
    # an older, longer file of the same name must not shine through
    for k in (1, 4):
        d = data(r, k * CHR)
        add("replace", ncgr(r, d), "BGU", chrs("BGU", d), setup=("BGU%d.PTC" % (k - 1), b"x" * 20000))
    d = data(r, COL)
    add("replace", nclr(r, d), "COL0", cols("COL0", d), setup=("COL0.PTC", b"x" * 20000))
    return T


def one(job):
    binp, i, t = job
    tag, content, out, want, argv, setup, either = t
    d = os.path.join(scratch(), "n%d-%s" % (i, os.path.basename(binp)))
    inp, od = os.path.join(d, "in"), os.path.join(d, "out")
    os.makedirs(od)
    try:
        src = os.path.join(inp, "file.bin")
        os.makedirs(inp)
        if content == "dir":
            os.makedirs(src)
        elif content is not None:
            with open(src, "wb") as f:
                f.write(content)
        if setup:
            p = os.path.join(od, setup[0])
            if setup[1] == "dir":
                os.makedirs(p)
            elif setup[1] == "full":
                os.symlink("/dev/full", p)
            else:
                with open(p, "wb") as f:
                    f.write(setup[1])
        args = [src, out] if argv is None else [src if a == "in" else a for a in argv]
        env = dict(ENV)
        env["MSAN_OPTIONS"] = "exitcode=99"
        try:
            p = subprocess.run([binp] + args, cwd=od, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            return ("hang", "no end within 120 s", None)
        files = {}
        for n in os.listdir(od):
            q = os.path.join(od, n)
            if os.path.isfile(q) and not os.path.islink(q):
                with open(q, "rb") as f:
                    files[n] = f.read()
        if content is not None and content != "dir":
            with open(src, "rb") as f:
                if f.read() != content:
                    return ("input-changed", "the input file was changed", None)
        return (p.returncode, p.stdout.decode(errors="replace"), files)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    c = Check("C30")
    c.rule = "non-trivial: the converter got a file (well-formed, damaged or foreign) and its exit status and all output files were compared with the defined payload"
    if not os.path.exists("/dev/full"):
        c.assumptions.append("no /dev/full here: write errors are limited to names that cannot be opened")
    T = [t for t in make(c) if not (t[5] and t[5][1] == "full" and not os.path.exists("/dev/full"))]
    jobs = []
    for i, t in enumerate(T):
        for fl in ("asan", "msan"):
            jobs.append((fl, i, t))
    bins = {fl: converter(fl) for fl in FLAV}
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, [(bins[fl], i, t) for fl, i, t in jobs]))
    for (fl, i, t), (rc, text, files) in zip(jobs, res):
        tag, content, out, want, argv, setup, either = t
        head = content[:64].hex() if isinstance(content, bytes) else content
        desc = "%s build, %s: input of %s bytes (%s…), output name %r, arguments %r, prepared %r" % (
            fl, tag, len(content) if isinstance(content, bytes) else "-", head, out, argv, setup and (setup[0], setup[1] if isinstance(setup[1], str) else len(setup[1])))
        c.case((tag, fl, len(content) if isinstance(content, bytes) else content, out), True)
        c.count("run_" + tag.split("-")[0])
        if rc in ("hang", "input-changed"):
            c.violation(rc, desc + "\n" + text, desc)
            continue
        if rc < 0 or rc == 99 or "Sanitizer" in text or "runtime error" in text:
            m = re.search(r"Sanitizer: ([\w-]+)", text)
            c.violation("crash-" + (m.group(1) if m else str(rc)), desc + "\nexit status %d\n%s" % (rc, text[-1500:]), desc)
            continue
        if want is None:
            if rc == 0:
                c.violation("accepted-" + tag, desc + "\nreported success, files %s" % {k: len(v) for k, v in files.items()}, desc)
            elif not setup and files:
                c.violation("rejected-but-wrote-" + tag, desc + "\nfiles %s" % {k: len(v) for k, v in files.items()}, desc)
            continue
        if rc:
            if not either:
                c.violation("refused-" + tag, desc + "\nexit status %d: %s" % (rc, text[-400:]), desc)
            continue
        c.count("files_compared", len(want))
        if set(files) != set(want):
            c.violation("files-" + tag, desc + "\nwrote %s, expected %s" % (sorted(files), sorted(want)), desc)
            continue
        for n in want:
            if files[n] != want[n]:
                at = next((k for k, (a, b) in enumerate(zip(files[n], want[n])) if a != b), min(len(files[n]), len(want[n])))
                c.violation("content-" + tag, desc + "\n%s differs from byte %d (length %d, expected %d)" % (n, at, len(files[n]), len(want[n])), desc)
                break
    c.sample({"runs": len(jobs), "example": T[0][0]})
    return c.finish(800)


if __name__ == "__main__":
    sys.exit(main())
