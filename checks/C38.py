#!/usr/bin/env python3
"""C38: nothing is used up: heap, block allocator, file descriptors and directories are the same after the second and after the fifth run of the same work."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import fuzz
import C01
import C20 as F
import C21
import C34

LOOK = ["paths", "fds", "heap"]
FILES = ["SAVE \"PRG:%s\"", "LOAD \"PRG:%s\"", "SAVE \"MEM:%s\"", "LOAD \"MEM:%s\"", "SAVE \"GRP1:%s\"", "LOAD \"GRP1:%s\"", "SAVE \"BGU1:%s\"", "LOAD \"BGU1:%s\"", "SAVE \"COL1:%s\"",
         "LOAD \"COL1:%s\"", "SAVE \"SCU0:%s\"", "LOAD \"SCU0:%s\"", "APPEND \"PRG:%s\"", "FILES", "CHRINIT \"BGU0\"", "COLINIT", "COLINIT \"BG\",3", "CHRINIT \"BGF0L\"", "LOAD \"SPU3:%s\"", "EXEC \"%s\""]
LINES = ["?A", "A=A+1", "B$=B$+\"X\":IF LEN(B$)>99 THEN B$=\"\"", "FOR I=0 TO 9:NEXT", "GOTO @NO", "?1/0", "ACLS", "CLS", "RUN", "FILES", "DIM Q(2)", "CLEAR", "NEW", "?\"ABC\"*3", "COLOR 3", "KEY 1,\"AB\"",
         "SPSET 1,2,3,0,0,0", "SPCLR", "C$=LEFT$(\"QWERTY\",3)+CHR$(65)", "LOAD \"PRG:X\"", "EXEC \"X\"", "SAVE \"PRG:X\"", "READ A", "@L", "PNLTYPE \"KYA\"", "A(3)=4", "NEXT", "IF 1 THEN ?2", "?#$"]


def file_line(rng):
    s = rng.choice(FILES)
    return s % rng.choice(["A", "B", "MISSING", "DAMAGED", "NOTPTC", "../X", "BAD NAME", "TOOLONGNAME"]) if "%s" in s else s


def case(ck, i):
    rng = ck.rng
    kind = i % 5
    n, pre = 5, []
    if kind == 0:       # random programs
        f = fuzz.Fuzz(rng, rng.choice([0, .1, .4]))
        lines = []
        for _ in range(rng.randint(1, 6)):
            name = rng.choice(C01.ISO)
            lines.append(f.assign() if name == "assign" else "Z=1" if name in ("if", "for") else f.named(name))
        src = "\r".join(x for x in lines if "\r" not in x) + "\r" + C01.DATA + "END\r" + C01.LABL
        work = ["frames - 5", prg(src, 0, 100)]
        what = src
    elif kind == 1:     # file statements, one after the other, whatever becomes of them
        ls = [file_line(rng) for _ in range(rng.randint(1, 6))]
        fault = rng.choice([None, None, "fault 1 1", "fault 2 1", "fault 3 1"])
        work = ["prgset " + hx("A=1\rEND\r")] + ["frames - 5"] + ([fault] if fault else []) + [direct(l + "\r", 0, 100) for l in ls] + (["fault 0 0"] if fault else [])
        what = (ls, fault)
    elif kind == 2:     # the prompt: the same lines three and seven times in one session
        ls = [rng.choice(LINES) for _ in range(rng.randint(1, 5))]
        script = [x for l in ls for x in (C34.keys(l) + "k000d", "", "", "")]
        # both cases have the same length: the driver holds its own script in memory
        size = len(";".join(script * 7))
        acts = [["heap", "fs", "wfile programs/X.PTC " + C34.prgfile("?1\r", "X").hex(), "sys", "frames %s %s30" % (";".join(script * k), "0" * (size - len(";".join(script * k)))), "shell - 5000"] + LOOK for k in (3, 7)]
        return [Case("u%da" % i, acts[0], (kind, ls, 1)), Case("u%db" % i, acts[1], (kind, ls, 1))]
    elif kind == 4:     # one file, whole or damaged in any way, with or without failing reads
        kinds = ["prg", "prg", "prg", "chr", "scr", "grp", "col", "mem"]
        k = rng.choice(kinds)
        data = C21.mutate(rng, C21.base_file(rng, k if rng.random() < .9 else rng.choice(kinds), "F"))
        if len(data) > 100000:
            data = data[:100000]
        res = "" if k == "prg" else rng.choice([x for x in F.ALL if F.slot(x, C21.PAGES)[0] == k]) + ":"
        st = rng.choice(["LOAD", "LOAD", "APPEND", "APPEND", "EXEC"] if k == "prg" else ["LOAD"])
        fault = "fault %d %d" % (rng.choice([1, 3, 3, 3]), rng.choice([0, 1, 4, 8, 12, 16, 24, 48, 60, len(data) // 2, max(0, len(data) - 1), len(data) + 1])) if rng.random() < .3 else "fault 0"
        pre = ["wfile programs/F.PTC %s" % (data.hex() or "-")]
        work = ["frames - 5", "prgset " + hx("A=1\rEND\r"), fault, direct('%s "%sF"\r' % (st, res), 0, 300), "fault 0"]
        what = (st, res, fault, len(data), data[:64])
    else:               # ACLS, labels, interrupted programs
        ls = [rng.choice(["ACLS", "GOSUB @S", "A$=A$+\"1\":IF LEN(A$)>200 THEN A$=\"\"", "RESTORE @D:READ X,Y$", "ON 1 GOTO @E", "SORT 0,3,Q", "FOR I=0 TO 3:NEXT", "INPUT A", "LINPUT A$", "WAIT 2", "?INKEY$()"])
              for _ in range(rng.randint(1, 6))]
        src = "CLEAR\rDIM Q(4)\r" + "\r".join(ls) + "\r@E\rEND\r@S\rRETURN\r@D\rDATA 1,a\r"
        work = ["frames k0041;k000d;;k0042;k000d %d" % rng.choice([3, 40]), prg(src, rng.choice([0, 2]), rng.choice([0, 100])), "frames - 0", direct("A=1\r")]
        what = src
    acts = ["fs", "wfile programs/DAMAGED.PTC " + b"PX01xxxx".hex(), "wfile programs/NOTPTC.PTC 4142", "mkdir programs/D",
            "wfill resources/BGU0.PTC %s 8192 3" % F.TYPESTR["chr"].hex(), "wfill resources/COL0.PTC %s 512 3" % F.TYPESTR["col"].hex(), "sys"] + pre
    for _ in range(n):
        acts += work + LOOK
    return [Case("u%d" % i, acts, (kind, what, n))]


def judge(ck, c, r):
    kind, what, n = c.meta
    if r.code:
        ck.count("cases ended early (judged by C01)")
        return
    heap, fds = r.all("heap"), r.all("fds")
    if len(heap) != n or len(fds) != n:
        raise HarnessError("observations of %s" % c.id)
    if heap[-1]["v"] > heap[1]["v"]:
        ck.violation("heap-%d" % kind, "the heap grows: %s\n%s" % ([h["v"] for h in heap], what), case_text(c))
        return
    if heap[-1]["arena"] > heap[0]["arena"]:
        ck.violation("arena-%d" % kind, "the block allocator gives nothing back, and %d bytes more are in use after %d repetitions\n%s" % (heap[-1]["arena"] - heap[0]["arena"], n, what), case_text(c))
        return
    if len({f["n"] for f in fds}) > 1:
        ck.violation("fds-%d" % kind, "file descriptors after each repetition: %s\n%s" % (fds, what), case_text(c))
        return
    ck.case((kind, str(what)))
    ck.count(["statement programs", "file statement lists", "prompt sessions", "interrupted programs", "files whole and damaged"][kind])


def judge_pair(ck, p, rs):
    kind, what, _ = p[0].meta
    if any(r.code for r in rs):
        ck.count("cases ended early (judged by C01)")
        return
    a, b = ({"v": h[1]["v"] - h[0]["v"], "arena": h[1]["arena"]} for h in (r.all("heap") for r in rs))      # less what the driver's own script takes
    fa, fb = (r.get("fds")["n"] for r in rs)
    if a["arena"] != b["arena"] or b["v"] > a["v"] or fa != fb:
        ck.violation("prompt", "after the lines were entered 3 and 7 times: heap %d and %d, allocator %d and %d, descriptors %d and %d\n%s" % (
            a["v"], b["v"], a["arena"], b["arena"], fa, fb, what), case_text(p[1]))
        return
    ck.case((kind, str(what)))
    ck.count("prompt sessions")


def main():
    ck = Check("C38")
    ck.rule = "the same work five times in one system (programs of random statements, file statements with damaged files and failing I/O, prompt sessions, interrupted programs); distinct = distinct work"
    binp = build("asan")
    n = ck.n(6000, 60000)
    for base in range(0, n, 4000):
        pairs = [case(ck, i) for i in range(base, min(n, base + 4000))]
        cases = [c for p in pairs for c in p]
        res = run_cases(binp, cases, cpu=60, wall=200)
        for p in pairs:
            if len(p) == 1:
                judge(ck, p[0], res[p[0].id])
            else:
                judge_pair(ck, p, [res[c.id] for c in p])
    return ck.finish(min_evals=1000)


if __name__ == "__main__":
    sys.exit(main())
