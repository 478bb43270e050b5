#!/usr/bin/env python3
"""C37: WAIT and VSYNC under a virtual display thread: frames counted by the program, by the frame loop and by what moves meanwhile."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SELECT = 2048
T19 = 1 << 19


def lit(rng, n):
    """a way to write a number of frames whose integer part is n"""
    r = rng.random()
    if r < .5:
        return str(n), n
    if r < .7:
        return "%d.%d" % (n, rng.choice([1, 5, 99, 999])) if n >= 0 else "%d-.5" % (n + 1) if n < -1 else "-.5", n
    if r < .85:
        return "%d+%d" % (n - 3, 3), n
    return "%s" % ("(%d*2)/2" % n if n > -9999 else n), n


def case(ck, i):
    rng = ck.rng
    kind = rng.random()
    start = rng.choice([0, 0, rng.randrange(3000), 4000, T19 - rng.randrange(60), rng.choice([1 << 31, 1 << 32, 1 << 38, 3 << 31]) - rng.randrange(100)])
    acts = ["sys"] + (["time %d" % start] if start else [])
    if kind < .2:       # stopped in the middle
        n = rng.choice([20, 100, 1000, 524287])
        k = rng.randint(1, 15)
        src = "A=1\r%s %d\rA=2\r" % (rng.choice(["WAIT", "VSYNC"]), n)
        acts += ["frames %s 200" % (";" * (k - 1) + "b%d" % SELECT), prg(src), "flog", "var A"]
        return Case("w%d" % i, acts, ("stop", src, k))
    src, waits = [], []
    move = rng.random() < .6
    if move:
        n = rng.randint(1, 40)
        x0, y0, x1, y1 = (rng.randint(-100, 300) for _ in range(4))
        w = rng.randrange(3)
        src.append("SPSET 5,0,0,0,0,0:SPOFS 5,%d,%d:BGOFS 0,%d,%d" % (x0, y0, x0, y0))
        src.append("SPOFS 5,%d,%d,%d:BGOFS 0,%d,%d,%d" % (x1, y1, n, x1, y1, n))
    for _ in range(rng.randint(1, 5)):
        v = rng.choice([0, 0, 1, 1, 2, 3, rng.randint(4, 30), rng.randint(30, 120), -1, -7, -524288 + 10])
        t, v = lit(rng, v)
        cmd = rng.choice(["WAIT", "VSYNC", "wait", "Vsync"])
        waits.append(v)
        k = len(waits)
        src.append("T%d=MAINCNTL\r%s %s\rU%d=MAINCNTL" % (k, cmd, t, k))
        if move:
            src.append("SPREAD(5),X%d,Y%d" % (k, k))
    acts += ["frames - 4000", prg("\r".join(src) + "\r"), "flog"]
    for k in range(1, len(waits) + 1):
        acts += ["var T%d" % k, "var U%d" % k] + (["var X%d" % k, "var Y%d" % k] if move else [])
    return Case("w%d" % i, acts, ("wait", "\r".join(src), waits, (n, x0, y0, x1, y1) if move else None, start))


def judge(ck, c, r):
    if ck.crash(r, c):
        return
    m = c.meta
    run, f = r.get("run"), r.get("flog")
    val = lambda n: next(o["v"] for o in r.all("var") if o["n"] == n)

    def bad(key, text):
        ck.violation(key, text + "\n" + m[1].replace("\r", "\n"), case_text(c))
    if m[0] == "stop":
        if run["err"] != E.BREAK or val("A") != 1 << 12:
            return bad("break", "SELECT in frame %d of the wait: %s, A=%s" % (m[2], E.name(run["err"]), val("A") / 4096))
        if f["n"] != m[2]:
            return bad("break-late", "SELECT in frame %d ended the wait after %d frames" % (m[2], f["n"]))
        ck.case(("stop", m[1], m[2]))
        ck.count("waits stopped")
        return
    _, src, waits, move, start = m
    if run["err"]:
        return bad("error", "gave %s" % E.name(run["err"]))
    total = 0
    for k, n in enumerate(waits, 1):
        n = max(n, 0)
        t, u = val("T%d" % k) >> 12, val("U%d" % k) >> 12
        if (u - t) % T19 != n:
            return bad("frames", "wait %d took %d frames instead of %d" % (k, u - t, n))
        if t != (start + total) % T19:
            return bad("clock", "before wait %d the frame counter is %d instead of %d" % (k, t, start + total))
        total += n
        if move:
            steps, x0, y0, x1, y1 = move
            d = min(total, steps)
            for v, a, b in (("X", x0, x1), ("Y", y0, y1)):
                got = val("%s%d" % (v, k)) / 4096
                want = a + (b - a) * d / steps
                if abs(got - want) > (0 if d == steps else 1.01):
                    return bad("moved", "after %d frames the sprite's %s is %s instead of %s" % (total, v, got, want))
        ck.count("waits of 0 frames" if n == 0 else "waits")
    if f["n"] != total:
        return bad("frames", "%d frames were drawn instead of %d" % (f["n"], total))
    ck.case(tuple(waits) + (move, start))
    ck.count("frames", total)


def main():
    ck = Check("C37")
    ck.rule = "waits of all lengths written in all ways, before, during and after movements, or stopped at any frame; distinct = lengths, movement and start of the clock"
    binp = build("asan")
    n = ck.n(1500, 20000)
    for base in range(0, n, 4000):
        cases = [case(ck, i) for i in range(base, min(n, base + 4000))]
        res = run_cases(binp, cases, cpu=60, wall=200)
        for c in cases:
            judge(ck, c, res[c.id])
    return ck.finish(min_evals=1000)


if __name__ == "__main__":
    sys.exit(main())
