#!/usr/bin/env python3
"""C23: histories of per-frame button masks and touches, judged against a reference of the held, repeating, pressed and released sets after every queried frame."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

ASK = "B=BUTTON():B0=BUTTON(0):B1=BUTTON(1):B2=BUTTON(2):B3=BUTTON(3):T=BTRIG():S=TCHST:X=TCHX:Y=TCHY:C=TCHTIME\r"
OUT = ["B", "B0", "B1", "B2", "B3", "T", "S", "X", "Y", "C"]


class Ref:
    def __init__(self):
        self.held = [[False] * 12, [False] * 12]  # previous, current
        self.start, self.rep, self.frames = [0] * 12, [0] * 12, [0] * 12
        self.touch = [0, 0, 0]

    def frame(self, mask):
        now = [bool(mask >> i & 1) for i in range(12)]
        self.held = [self.held[1], now]
        self.frames = [f + 1 if h else 0 for f, h in zip(self.frames, now)]

    def tch(self, t, x, y):
        self.touch = [self.touch[0] + 1, x, y] if t else [0] + self.touch[1:]

    def trig(self, i):
        """pressed in this frame, or repeated: `rep`+1 frames apart, starting after `start` frames"""
        f, s, r = self.frames[i], self.start[i], self.rep[i]
        return f == 1 if r == 0 or f <= s else (f - s - 1) % (r + 1) == 0

    def want(self):
        def m(it):
            return sum(1 << i for i, v in enumerate(it) if v)
        old, now = self.held
        held = m(now)
        trig = m(self.trig(i) for i in range(12))
        return [held, held, trig, m(n and not o for o, n in zip(old, now)), m(o and not n for o, n in zip(old, now)), trig,
                1 if self.touch[0] else 0, self.touch[1], self.touch[2], self.touch[0]]


def arg(rng, v):
    """a number written so that its integer part is v"""
    return str(v) if rng.random() < .8 else "%d.%s" % (v, rng.choice(["5", "25", "999"])) if v >= 0 else str(v)


def brepeat(rng, ref):
    """one BREPEAT statement: source, expected error; applied to the reference"""
    i = rng.randrange(12) if rng.random() < .9 else rng.choice([12, 12, -1, 13, 100000])
    if rng.random() < .2:
        src, s, r = "BREPEAT %s" % arg(rng, i), 0, 0
    else:
        s = rng.choice([0, 0, 1, 2, 3, 5, 10, 29, 30, 60, 300, 524287, -1])
        r = rng.choice([0, 1, 2, 3, 4, 7, 9, 15, 255, 256, 524287, -1])
        if s < 0 and r < 0:
            r = 0
        src = "BREPEAT %s,%s,%s" % (arg(rng, i), arg(rng, s), arg(rng, r))
    bad = not 0 <= i <= 12 or i != 12 and (s < 0 or r < 0)
    if not bad and i < 12:
        ref.start[i], ref.rep[i] = s, r
    return src, bad


def history(rng, length):
    """frame masks: held, tapped, chattering and random buttons"""
    style = [rng.choice(["off", "hold", "hold", "tap", "chatter", "random", "long"]) for _ in range(12)]
    state, left = [0] * 12, [rng.randint(0, 8) for _ in range(12)]
    for _ in range(length):
        m = 0
        for i, st in enumerate(style):
            if st == "random":
                state[i] = rng.randrange(2)
            elif st == "chatter":
                state[i] ^= 1
            elif st != "off":
                left[i] -= 1
                if left[i] < 0:
                    state[i] ^= 1
                    left[i] = {"hold": rng.randint(1, 12), "tap": 0 if state[i] else rng.randint(1, 5), "long": rng.randint(20, 80)}[st]
            m |= state[i] << i
        yield m


def run():
    ck = Check("C23")
    ck.rule = "history of (12-bit mask, touch) per frame with interleaved BREPEAT settings and invalid calls, all query functions after most frames; distinct = (mask history suffix of 3, settings, answers)"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for k in range(ck.n(260, 4000)):
        ref, acts, exp = Ref(), ["sys"], []
        tst, tx, ty = False, 0, 0
        silent = rng.random() < .3
        for m in history(rng, rng.choice([30, 60, 120])):
            for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 2])):
                src, bad = brepeat(rng, ref)
                acts.append(direct(src + "\r"))
                exp.append(("cmd", src, bad))
            if rng.random() < .02:
                mode = rng.choice([-1, 4, 5, 100, -524287])
                acts.append(direct("B=BUTTON(%d)\r" % mode))
                exp.append(("cmd", "BUTTON(%d)" % mode, True))
            reps = rng.choice([255, 256, 257, 600, 32767, 65536, 70000]) if rng.random() < .01 and ref.touch[0] < 400000 else 1
            acts.append("btn %d %d" % (m, reps))
            for _ in range(min(reps, 2)):
                ref.frame(m)
            ref.frames = [f + max(reps - 2, 0) if f else 0 for f in ref.frames]
            if rng.random() < .25:
                tst = not tst
            if rng.random() < .5:
                tx, ty = rng.choice([0, 255, rng.randrange(256)]), rng.choice([0, 191, rng.randrange(192)])
            if rng.random() < .9:
                acts.append("touch %d %d %d %d" % (tst, tx, ty, reps))
                ref.tch(tst, tx, ty)
                ref.touch[0] += reps - 1 if tst else 0
            if silent and rng.random() < .7:
                continue
            acts.append(direct(ASK))
            acts += ["var " + v for v in OUT]
            exp.append(("ask", m, ref.want(), tuple(ref.start), tuple(ref.rep), tuple(ref.frames)))
        cases.append(Case("h%d" % k, acts, exp))
    res = run_cases(binp, cases, cpu=60)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        runs, vals = r.all("run"), [v["v"] for v in r.all("var")]
        vi, last = 0, []
        for e, u in zip(c.meta, runs):
            if e[0] == "cmd":
                ck.case(e[1])
                ck.count("settings_rejected" if e[2] else "settings")
                if bool(u["err"]) != e[2]:
                    ck.violation("args", "%s: %s" % (e[1], "accepted" if e[2] else "error %s" % E.name(u["err"])), case_text(c)[:60000])
                    break
                continue
            got = [v / 4096 if v is not None else None for v in vals[vi:vi + len(OUT)]]
            vi += len(OUT)
            last = (last + [e[1]])[-3:]
            ck.case((tuple(last), e[3], e[4], tuple(got)))
            ck.count("frames_queried")
            if u["err"] or got != e[2]:
                bad = [n for n, a, b in zip(OUT, got, e[2]) if a != b]
                names = dict(zip(OUT, ["BUTTON()", "BUTTON(0)", "BUTTON(1)", "BUTTON(2)", "BUTTON(3)", "BTRIG()", "TCHST", "TCHX", "TCHY", "TCHTIME"]))
                key = names[bad[0]].rstrip("()") if bad else "error"
                ck.violation(key, "error %s; %s\nframes held %s start %s repeat %s\nmasks %s" % (
                    E.name(u["err"]), ", ".join("%s=%s not %s" % (names[n], got[OUT.index(n)], e[2][OUT.index(n)]) for n in bad), e[5], e[3], e[4], last), case_text(c)[:100000])
                break
    return ck.finish(min_evals=2000)


if __name__ == "__main__":
    main(run, "C23")
