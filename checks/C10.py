#!/usr/bin/env python3
"""C10: executed statement sequences of random programs against a reference interpreter."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gen import *

def shape(prog, m):
    return tuple(x >> 12 for x in m.arrs["T"][1][:max(0, min(m.vars.get("N", 0) >> 12, 40))]) if "T" in m.arrs else ()


def make(rng, kind):
    while True:
        g = Gen(rng)
        prog = g.program() if kind == 0 else g.soup()
        m = Machine()
        try:
            err = m.run(prog, 6000)
        except (Limit, Skip):
            continue
        lay = plain(rng) if rng.random() < .5 else fancy(rng)
        src = lay.source(prog)
        if src is None or src.count("\r") > 400:
            continue
        return prog, m, err, src, g.feat


def name(rng, n=None):
    n = n or rng.randint(1, 16)
    return rng.choice("ABCDEHJKLMOQTUVWXYZ") + "".join(rng.choice("ABCXYZ_0189") for _ in range(n - 2)) + ("9" if n > 1 else "")


def filler(rng):
    """a statement that must be stepped over: names, strings, labels and DATA of every length, every kind of operand"""
    import C28
    v, w = name(rng), name(rng)
    s = "".join(rng.choice("ABCFNIETW@:?,;' 019<>=") for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 15, 16, 30, 50])))
    k = rng.randrange(16)
    if k < 12:
        return [lambda: "%s=%s+1" % (v, w), lambda: '%s$="%s"' % (v, s), lambda: 'PRINT "%s";%s,"%s"' % (s[:30], v, s[30:]), lambda: "DIM %s(%d)" % (v, rng.randint(1, 300)),
                lambda: "DIM %s$[%d,%d],%s(3)" % (v, rng.randint(1, 9), rng.randint(1, 9), w), lambda: "%s(%s)=%s[1,2]*%s" % (v, w, w, rng.choice(["65536", ".5", "&HFF", "0.00025", "78", "69.25", "3"])),
                lambda: "GOSUB @" + v, lambda: 'GOTO "@%s"' % w, lambda: "ON %s GOTO @%s,@%s" % (v, w, v), lambda: 'RESTORE "@%s"' % v, lambda: "READ %s,%s$" % (v, w),
                lambda: '%s=INSTR(%s$,"%s")+LEN(%s$)' % (v, w, s[:20], v)][k]()
    return C28.fill(rng, rng.choice([x for x in C28.POOL if "FOR" not in x and "@D" not in x and "READ" not in x]))


def joined(rng, room, bare):
    """fillers of one line"""
    out = ["N=N+1"]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        t = filler(rng)
        if len(":".join(out + [t])) < room and not (bare and "DIM" in t):
            out.append(t)
    return ":".join(out)


def skip_prog(rng):
    """parts that are not executed; what follows them is: (source, expected number of parts passed)"""
    src, n, data = ["READ Q:IF Q==4711 THEN P=P+1"] if rng.random() < .3 else [], 0, rng.randint(0, 3)
    n += len(src)
    first = bool(src)
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.randrange(5)
        if k < 2:  # a loop that makes no trip
            head = rng.choice(["FOR I=1 TO 0", "FOR I=5 TO 4.5", "FOR I=0 TO 5 STEP -1", "FOR I%d=3 TO 2" % rng.randrange(10)])
            src.append(head)
            depth = 0
            for _ in range(rng.choice([1, 2, 3, 6])):
                if rng.random() < .15:
                    src.append("FOR J=1 TO 3")
                    depth += 1
                src.append(joined(rng, 95, 0))
                if rng.random() < .2:
                    src.append("IF %s THEN %s ELSE %s" % (name(rng), joined(rng, 35, 1), joined(rng, 35, 1)))
                if not first and rng.random() < .1:
                    src.append("DATA " + "x" * rng.randint(1, 60))
                if depth and rng.random() < .5:
                    src.append("NEXT")
                    depth -= 1
            src += ["NEXT"] * (depth + 1)
            src.append("P=P+1")
        elif k == 2:
            src.append("IF %s THEN %s" % (rng.choice(["0", "N", "1==2", '"A"=="B"']), joined(rng, 75, 1)))
            src.append("P=P+1")
        elif k == 3:
            src.append("IF %s THEN %s ELSE P=P+1" % (rng.choice(["0", "N", "1==2"]), joined(rng, 70, 1)))
        else:
            src.append("IF %s THEN P=P+1 ELSE %s" % (rng.choice(["1", "!N", "1!=2"]), joined(rng, 70, 1)))
        n += 1
    src.append("END")
    if first:
        for _ in range(rng.randint(0, 4)):
            src.append(joined(rng, 95, 0))
        src.append("DATA 4711")
    return "\r".join(src) + "\r", n


def skip_part(ck, binp):
    rng = ck.rng
    cases = []
    for i in range(ck.n(900, 12000)):
        s, n = skip_prog(rng)
        cases.append(Case("s%d" % i, [prg(s, rng.choice([0, 0, 2, 3]), 4000), "var P", "var N"], (s, n)))
    res = run_cases(binp, cases)
    for c in cases:
        s, n = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        e, p, q = r.get("run")["err"], r.get("var", 0)["v"] or 0, r.get("var", 1)["v"] or 0
        ck.case(("skip", s))
        ck.count("parts_stepped_over", n)
        if e or p != n << 12 or q:
            ck.violation("skip", "%s; %s of %d parts passed, %s statements executed that are to be stepped over\n%s" % (E.name(e), p / 4096, n, q / 4096, s.replace("\r", "\n")), case_text(c))


def run():
    ck = Check("C10")
    ck.rule = "a program counts as distinct by the sequence of trace points it passed"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for i in range(ck.n(1600, 30000)):
        prog, m, err, src, feat = make(rng, 0 if rng.random() < .65 else 1)
        cases.append(Case("p%d" % i, [prg(src, rng.choice([0, 0, 2]), 4000), "vars"], (m, err, src, feat)))
    res = run_cases(binp, cases)
    for c in cases:
        m, err, src, feat = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        o = r.get("run")
        sh = shape(None, m)
        ck.case(sh, len(sh) > 1)
        ck.count("statements_traced", m.vars.get("N", 0) >> 12)
        for f in feat:
            ck.count("feature_" + f)
        ck.count("end_" + E.name(err).replace("ERR_", ""))
        if not same_err(o["err"], err):
            ck.violation("error:%s:%s" % (E.name(err), E.name(o["err"])), "expected %s, got %s\n%s" % (E.name(err), E.name(o["err"]), src.replace("\r", "\n")), case_text(c))
            continue
        d = state_diff(m, r.get("vars"))
        if d:
            ck.violation("trace", d[:300] + "\nexpected trace %s\n" % (sh,) + src.replace("\r", "\n"), case_text(c))
            continue
        ck.sample("%d statements -> trace %s" % (m.steps, list(sh)[:12]))
    skip_part(ck, binp)
    return ck.finish(min_evals=1000)


if __name__ == "__main__":
    main(run, "C10")
