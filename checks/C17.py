#!/usr/bin/env python3
"""C17: sprite statements and frame steps against a sprite model; every sprite of both screens is compared after every statement."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fractions import Fraction

OOR, UNSET = E.OUT_OF_RANGE, E.ILLEGAL_FUNCTION_CALL
NEAR = 4096


class Bad(Exception):
    pass


def cmod(a, b):
    return a - b * int(Fraction(a, b)) if a >= 0 else -((-a) % b)


class Move:
    """linear change of some values, ending exactly at the target"""
    def __init__(self, v0, v1, end, total):
        self.v0, self.v1, self.end, self.total, self.k = v0, v1, end, total, 0


class Spr:
    def __init__(self, chr, pal, fx, fy, prio, w, h):
        self.chr, self.pal, self.fx, self.fy, self.prio, self.w, self.h = chr, pal, fx, fy, prio, w, h
        self.home = [0, 0]
        self.pos, self.angle, self.scale = [0, 0], [0], [4096]
        self.moves = {}                       # "pos" / "angle" / "scale" -> Move
        self.hit = [0, 0, 0, 0, w * 4096, h * 4096, 0, 255]
        self.vars = [0] * 8
        self.anim = None                      # [chrs, time, loops left or None, frame]
        self.idx = 0

    def image(self):
        return self.chr + self.idx * max(1, self.w * self.h // 256)

    def step(self):
        for n, m in list(self.moves.items()):
            m.k += 1
            if m.k >= m.total:
                setattr(self, n, list(m.end))
                del self.moves[n]
        a = self.anim
        if a:
            a[3] += 1
            if a[3] >= a[1]:
                a[3] = 0
                self.idx += 1
                if self.idx >= a[0]:
                    if a[2] is not None:
                        a[2] -= 1
                    if a[2] == 0:
                        self.idx -= 1
                        self.anim = None
                    else:
                        self.idx = 0

    def chk(self):
        return ("pos" in self.moves) | ("angle" in self.moves) << 1 | ("scale" in self.moves) << 2 | bool(self.anim) << 3

    def compare(self, o, who):
        for k, v in (("chr", self.chr), ("pal", self.pal), ("fx", self.fx), ("fy", self.fy), ("prio", self.prio), ("w", self.w), ("h", self.h),
                     ("hx", self.home[0]), ("hy", self.home[1]), ("hit", self.hit), ("vars", self.vars), ("schr", self.image())):
            if o[k] != v:
                raise Bad("%s: %s is %s instead of %s" % (who, {"schr": "shown image"}.get(k, k), o[k], v))
        for n, g in (("pos", o["pos"][:2]), ("angle", o["angle"][:1]), ("scale", o["scale"][:1])):
            m = self.moves.get(n)
            if not m:
                if g != getattr(self, n):
                    raise Bad("%s: %s is %s instead of %s" % (who, n, [x / NEAR for x in g], [x / NEAR for x in getattr(self, n)]))
                continue
            for x, a, b in zip(g, m.v0, m.v1):
                d = x - (a + Fraction((b - a) * m.k, m.total))
                if n == "angle":
                    turn = 360 * NEAR
                    d = (d + turn / 2) % turn - Fraction(turn, 2)
                if abs(d) > m.k:
                    raise Bad("%s: %s is %s after %d of %d frames from %s to %s" % (who, n, x / NEAR, m.k, m.total, a / NEAR, b / NEAR))
            setattr(self, n, list(g))   # the next statement may start from here


class Model:
    def __init__(self):
        self.page = 0
        self.s = [{}, {}]

    def do(self, op, a):
        """-> set of acceptable errors"""
        fl = [x // 4096 for x in a]     # integer part of the arguments
        cur = self.s[self.page]
        if op == "SPPAGE":
            if fl[0] not in (0, 1):
                return {OOR}
            self.page = fl[0]
            return {0}
        if op == "SPCLR":
            if fl and not 0 <= fl[0] < 100:
                return {OOR}
            if fl:
                cur.pop(fl[0], None)
            else:
                cur.clear()
            return {0}
        i = fl[0]
        maxchr = 117 if self.page else 511
        R = []                          # (value, min, max)
        if op == "SPSET":
            R = [(fl[1], 0, maxchr), (fl[2], 0, 15), (fl[5], 0, 3)]
        elif op == "SPOFS":
            R = [(fl[1], -65536, 65535), (fl[2], -65536, 65535)] + [(x, 0, 1 << 30) for x in fl[3:]]
        elif op == "SPSETV":
            R = [(fl[1], 0, 7)]
        elif op == "SPCOL":
            R = [(fl[1], -128, 127), (fl[2], -128, 127), (fl[3], 0, 255), (fl[4], 0, 255), (fl[5], 0, 1)] + [(x, 0, 255) for x in fl[6:]]
        elif op == "SPCOLVEC":
            R = [(fl[1], -128, 127), (fl[2], -128, 127)]
        elif op == "SPSCALE":
            R = [(fl[1], 0, 200)] + [(x, 0, 1 << 30) for x in fl[2:]]
        elif op == "SPANGLE":
            R = [(x, 0, 1 << 30) for x in fl[2:3]] + [(abs(x), 1, 1) for x in fl[3:]]
        elif op == "SPCHR":
            R = [(fl[1], 0, maxchr)] + [(x, 0, m) for x, m in zip(fl[2:], (15, 1, 1, 3))]
        elif op == "SPANIM":
            R = [(fl[1], 1, 1 << 30), (fl[2], 1, 1 << 30)] + [(x, 0, 1 << 30) for x in fl[3:]]
        R.append((i, 0, 31 if op == "SPSCALE" else 99))
        bad = any(not lo <= v <= hi for v, lo, hi in R)
        if op == "SPSET":
            if bad or any(x not in (8, 16, 32, 64) for x in fl[6:]):
                return {OOR}
            w, h = fl[6:] or (16, 16)
            cur[i] = Spr(fl[1], fl[2], int(fl[3] != 0), int(fl[4] != 0), fl[5], w, h)
            return {0}
        s = cur.get(i)
        if s is None:
            if op in ("SPCHR", "SPANIM"):
                return {OOR} if bad else {0}
            return {OOR, UNSET} if bad else {UNSET}
        if bad:
            return {OOR}
        if op == "SPOFS":
            p = [fl[1] * 4096, fl[2] * 4096]
            s.moves.pop("pos", None)
            if fl[3:] and fl[3]:
                s.moves["pos"] = Move(s.pos, p, p, fl[3])
            else:
                s.pos = p
        elif op == "SPSETV":
            s.vars[fl[1]] = a[2]
        elif op == "SPCOL":
            s.hit[2:8] = [x * 4096 for x in fl[1:5]] + [fl[5], (fl[6:] or [255])[0]]
        elif op == "SPCOLVEC":
            s.hit[:2] = [fl[1] * 4096, fl[2] * 4096]
        elif op == "SPHOME":
            s.home = [((x & 255) ^ 128) - 128 for x in fl[1:3]]
        elif op == "SPSCALE":
            v = fl[1] * 4096 // 100
            s.moves.pop("scale", None)
            if fl[2:] and fl[2]:
                s.moves["scale"] = Move(s.scale, [v], [v], fl[2])
            else:
                s.scale = [v]
        elif op == "SPANGLE":
            v = cmod(fl[1], 360) * 4096
            s.moves.pop("angle", None)
            if fl[2:] and fl[2]:
                turn = (v - s.angle[0]) % (360 * 4096)
                if (fl[3:] or [1])[0] > 0 and turn:
                    turn -= 360 * 4096
                s.moves["angle"] = Move(s.angle, [s.angle[0] + turn], [v], fl[2])
            else:
                s.angle = [v]
        elif op == "SPCHR":
            s.chr, s.anim, s.idx = fl[1], None, 0
            if fl[2:]:
                s.pal, s.fx, s.fy, s.prio = fl[2:]
        elif op == "SPANIM":
            s.idx = 0
            s.anim = [fl[1], fl[2], (fl[3:] or [0])[0] or None, 0]
        return {0}


def gen_op(rng, m, ids):
    op = rng.choice(["SPPAGE", "SPSET", "SPSET", "SPSET", "SPCLR", "SPOFS", "SPOFS", "SPOFS", "SPSETV", "SPCOL", "SPCOLVEC", "SPHOME",
                     "SPSCALE", "SPSCALE", "SPANGLE", "SPANGLE", "SPCHR", "SPANIM", "SPANIM", "SPANIM"])
    i = rng.choice(ids) if rng.random() < .85 else rng.choice([0, 31, 32, 98, 99, rng.randrange(100), rng.randrange(100)])
    if rng.random() < .03:
        i = rng.choice([-1, 100, 101, 255, 256, 524287])
    time = lambda: rng.choice([0, 1, 2, 3, 4, 5, 8, 10, 60, rng.randint(1, 40), rng.choice([-1, 1000, 524287])])
    pos = lambda: rng.choice([rng.randint(-100, 300), rng.randint(-100, 300), rng.randint(-300, 600) + rng.choice([0, .5, .75]), rng.choice([0, 255, 65535, -65536, 65536, -65537, 524287, -524287])])
    if op == "SPPAGE":
        return op, [rng.choice([0, 1, 0, 1, 0, 1, 0, 1, 2, -1])]
    if op == "SPCLR":
        return op, [] if rng.random() < .15 else [i]
    if op == "SPSET":
        a = [i, rng.choice([0, 1, 64, 117, 116, rng.randrange(118), rng.randrange(118), rng.choice([118, 255, 511, 512, -1])]), rng.randrange(16), rng.choice([0, 1, 0, 1, 2, -1, .5]), rng.choice([0, 1, 0, 1, 3, -2]), rng.randrange(4)]
        if rng.random() < .6:
            a += [rng.choice([8, 16, 32, 64]), rng.choice([8, 16, 32, 64])]
            if rng.random() < .06:
                a[rng.choice([6, 7])] = rng.choice([0, 1, 7, 24, 48, 128, -8, 255, 272, 264])
        if rng.random() < .05:
            a[rng.choice([2, 5])] = rng.choice([-1, 16, 4, 256])
    elif op == "SPOFS":
        a = [i, pos(), pos()] + ([] if rng.random() < .3 else [time()])
    elif op == "SPSETV":
        a = [i, rng.choice([0, 7, rng.randrange(8), rng.randrange(8), rng.choice([-1, 8])]), rng.choice([rng.randint(-500000, 500000), rng.random() * 100, .25, -1])]
    elif op == "SPCOL":
        a = [i, rng.randint(-128, 127), rng.randint(-128, 127), rng.randint(0, 255), rng.randint(0, 255), rng.randrange(2)] + ([rng.choice([0, 1, 128, 255, rng.randrange(256)])] if rng.random() < .5 else [])
        if rng.random() < .1:
            a[rng.randrange(1, len(a))] = rng.choice([-129, 128, 256, -1, 2, 255])
    elif op in ("SPCOLVEC", "SPHOME"):
        a = [i, rng.choice([rng.randint(-128, 127), 0, 127, -128]), rng.choice([rng.randint(-128, 127), 0, 127, -128])]
        if rng.random() < .1:
            a[rng.choice([1, 2])] = rng.choice([128, -129, 255, 256, 1000])
    elif op == "SPSCALE":
        a = [i if rng.random() < .3 else rng.choice([x for x in ids if x < 32] or [0]), rng.choice([0, 1, 50, 99, 100, 101, 150, 200, rng.randrange(201), rng.choice([-1, 201])])] + ([] if rng.random() < .3 else [time()])
    elif op == "SPANGLE":
        a = [i, rng.choice([0, 45, 90, 180, 270, 359, 360, -90, 720, rng.randint(-720, 720), rng.randint(0, 359), 10.5, 524287])] + ([] if rng.random() < .25 else [time()])
        if len(a) == 3 and rng.random() < .7:
            a.append(rng.choice([1, -1, 1, -1, 1, -1, 0, 2, -2]))
    elif op == "SPCHR":
        a = [i, rng.choice([0, 1, 117, rng.randrange(118), rng.choice([118, 511, 512, -1])])]
        if rng.random() < .5:
            a += [rng.randrange(16), rng.randrange(2), rng.randrange(2), rng.randrange(4)]
            if rng.random() < .1:
                a[rng.randrange(2, 6)] = rng.choice([-1, 16, 2, 4])
    else:
        a = [i, rng.choice([1, 2, 3, 4, 5, 8, rng.choice([0, -1, 100, 524287])]), rng.choice([1, 1, 2, 3, 4, 10, rng.choice([0, -1, 524287])])] + ([] if rng.random() < .3 else [rng.choice([0, 1, 1, 2, 3, 5, -1])])
    return op, a


def run():
    ck = Check("C17")
    ck.rule = "statement x arguments (valid, at the limits, outside) x history of statements and frames on both screens; every sprite compared after every statement; distinct = (statement, arguments)"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for k in range(ck.n(2000, 20000)):
        acts, ops = ["sys"], []
        m = Model()
        ids = rng.sample(range(32), rng.randint(1, 3)) + rng.sample(range(100), rng.randint(0, 2)) + ([99] if rng.random() < .2 else [])
        for i in ids:
            if rng.random() < .8:
                op = ("SPSET", [i, rng.randrange(118), rng.randrange(16), 0, 0, rng.randrange(4)] + rng.choice([[], [rng.choice([8, 16, 32, 64]), rng.choice([8, 16, 32, 64])]]))
                ops.append(op)
                acts += [direct("%s %s\r" % (op[0], ",".join(map(str, op[1])))), "spr 0", "spr 1"]
        for _ in range(rng.randint(6, 25)):
            if rng.random() < .4:
                n = rng.choice([1, 1, 1, 2, 2, 3, 5, 10, 30])
                ops.append(("step", n))
                acts += ["spstep %d" % n]
            else:
                op, a = gen_op(rng, m, ids)
                a = [min(max(round(x * 4096) / 4096, -524287), 524287) for x in a]
                a = [int(x) if x == int(x) else x for x in a]
                ops.append((op, a))
                acts += [direct(op + " " + ",".join(("%.12f" % x) if isinstance(x, float) else str(x) for x in a) + "\r")]
            acts += ["spr 0", "spr 1"]
            if rng.random() < .35:
                i = rng.choice(ids) if rng.random() < .9 else rng.randrange(100)
                n = rng.choice([2, 3, 4, 5, 5])
                v = rng.randrange(8)
                ops.append(("read", (i, n, v)))
                acts += [direct("X=9999:Y=9999:A=9999:S=9999:C=9999\rSPREAD(%d),%s\rK=SPCHK(%d)\rG=-77\r" % (i, ",".join("XYASC"[:n]), i)), direct("G=SPGETV(%d,%d)\r" % (i, v))]
                acts += ["var " + z for z in "XYASCKG"] + ["spr 0", "spr 1"]
        if rng.random() < .15:  # changes that are slower than one 4096th per frame
            i, t = rng.choice([x for x in ids if x < 32]), rng.randint(4097, 9000)
            ang = lambda d: ["SPANGLE", [i, 90], [i, 90 + d, t, rng.choice([1, -1])]]
            op, a, b = rng.choice([ang(1), ang(-1), ["SPOFS", [i, 50, 60], [i, 51, 60, t]], ["SPOFS", [i, 50, 60], [i, 50, 59, t]], ["SPSCALE", [i, 100], [i, 101, t]]])
            for z in (a, b):
                ops.append((op, z))
                acts += [direct(op + " " + ",".join(map(str, z)) + "\r"), "spr 0", "spr 1"]
            for n in (t - 1, 1, 1):
                ops.append(("step", n))
                acts += ["spstep %d" % n, "spr 0", "spr 1"]
        cases.append(Case("s%d" % k, acts, ops))
    res = run_cases(binp, cases)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        m = Model()
        obs, pos = r.obs, 0

        def nxt(t):
            nonlocal pos
            while obs[pos]["t"] != t:
                pos += 1
            pos += 1
            return obs[pos - 1]
        done = []
        try:
            for op, a in c.meta:
                done.append("%s %s" % (op, a))
                ck.case((op, str(a)))
                if op == "step":
                    for _ in range(a):
                        for d in m.s:
                            for s in d.values():
                                s.step()
                    ck.count("frames", a)
                elif op == "read":
                    i, n, v = a
                    s = m.s[m.page].get(i)
                    e1, e2 = nxt("run")["err"], nxt("run")["err"]
                    vals = [nxt("var")["v"] for _ in range(7)]
                    if e1 not in ((0,) if s else (0, UNSET)):
                        raise Bad("SPREAD or SPCHK: error %s" % E.name(e1))
                    if e2 != (0 if s else UNSET):
                        raise Bad("SPGETV: error %s" % E.name(e2))
                    if s:
                        want = [s.pos[0] & -4096, s.pos[1] & -4096, s.angle[0], s.scale[0], s.chr * 4096][:n] + [9999 * 4096] * (5 - n) + [s.chk() * 4096, s.vars[v]]
                        if vals != want:
                            raise Bad("reads %s instead of %s" % ([x / 4096 for x in vals], [x / 4096 for x in want]))
                    elif not e1 and vals[5]:
                        raise Bad("SPCHK of a sprite that is not set is %s" % (vals[5] / 4096))
                    ck.count("reads")
                else:
                    err = nxt("run")["err"]
                    want = m.do(op, [int(x * 4096) for x in a])
                    ck.count(op + ("_err" if err else ""))
                    if err not in want:
                        raise Bad("error %s instead of %s" % (E.name(err), [E.name(x) for x in want]))
                for p in (0, 1):
                    o = nxt("spr")
                    if o["cur"] != m.page:
                        raise Bad("page is %d instead of %d" % (o["cur"], m.page))
                    got = {int(x): y for x, y in o["v"].items()}
                    if sorted(got) != sorted(m.s[p]):
                        raise Bad("screen %d has sprites %s instead of %s" % (p, sorted(got), sorted(m.s[p])))
                    for i, s in m.s[p].items():
                        s.compare(got[i], "screen %d sprite %d" % (p, i))
        except Bad as e:
            ck.violation(done[-1].split()[0], "%s: %s\nafter %s" % (done[-1], e, "; ".join(done[:-1])[-700:]), case_text(c))
    return ck.finish(min_evals=4000)


if __name__ == "__main__":
    main(run, "C17")
