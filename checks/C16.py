#!/usr/bin/env python3
"""C16: background statements against a tile model; every bank is compared after every statement."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fractions import Fraction

OOR = E.OUT_OF_RANGE


class Bad(Exception):
    pass


def clamp(v):
    return 0 if v < 0 else 63 if v > 63 else v


def td(c, p, h, v):
    return c | h << 10 | v << 11 | p << 12


def hexval(s):
    n = 0
    for ch in s:
        if ch not in "0123456789ABCDEF":
            break
        n = n * 16 + int(ch, 16)
    return n


class Model:
    def __init__(self):
        self.page = 0
        self.t = {b: {} for b in (2, 3, 6, 7)}  # bank -> (x, y) -> nonzero tile
        self.t = {b: [0] * 4096 for b in (2, 3, 6, 7)}
        self.ofs = {(s, l): [0, 0, None] for s in (0, 1) for l in (0, 1)}  # x, y, move (x0, y0, x1, y1, total, left)
        self.clip = [[0, 0, 255, 191], [0, 0, 255, 191]]

    def bank(self, l):
        return self.t[4 * self.page + 2 + l]

    def put(self, l, x, y, v):
        self.bank(l)[y * 64 + x] = v

    def do(self, op, a):
        """-> allowed error"""
        if op == "BGPAGE":
            if a[0] not in (0, 1):
                return OOR
            self.page = a[0]
            return 0
        if op == "BGCLIP":
            if not (0 <= a[0] < 32 and 0 <= a[1] < 24 and 0 <= a[2] < 32 and 0 <= a[3] < 24):
                return OOR
            self.clip[self.page] = [a[0] * 8, a[1] * 8, a[2] * 8 + 7, a[3] * 8 + 7]
            return 0
        if op == "BGCLR":
            if a and a[0] not in (0, 1):
                return OOR
            for l in a or (0, 1):
                self.bank(l)[:] = [0] * 4096
            return 0
        if a[0] not in (0, 1):
            return OOR
        l = a[0]
        if op in ("BGPUT", "BGFILL"):
            k = 3 if op == "BGPUT" else 5
            t = a[k:]
            if len(t) == 4:
                if not (0 <= t[0] < 1024 and 0 <= t[1] < 16 and t[2] in (0, 1) and t[3] in (0, 1)):
                    return OOR
                v = td(*t)
            else:
                v = hexval(t[0]) if isinstance(t[0], str) else t[0] & 0xffff
            if op == "BGPUT":
                self.put(l, a[1] & 63, a[2] & 63, v)
            else:
                x1, x2 = sorted((clamp(a[1]), clamp(a[3])))
                y1, y2 = sorted((clamp(a[2]), clamp(a[4])))
                for y in range(y1, y2 + 1):
                    for x in range(x1, x2 + 1):
                        self.put(l, x, y, v)
        elif op == "BGCOPY":
            x1, x2 = sorted((clamp(a[1]), clamp(a[3])))
            y1, y2 = sorted((clamp(a[2]), clamp(a[4])))
            x3, y3 = clamp(a[5]), clamp(a[6])
            src = list(self.bank(l))
            for y in range(y1, y2 + 1):
                for x in range(x1, x2 + 1):
                    if x - x1 + x3 < 64 and y - y1 + y3 < 64:
                        self.put(l, x - x1 + x3, y - y1 + y3, src[y * 64 + x])
        elif op == "BGOFS":
            o = self.ofs[(self.page, l)]
            if len(a) > 3 and a[3] < 0:
                return OOR
            if len(a) > 3 and a[3] > 0:
                o[2] = (o[0], o[1], a[1], a[2], a[3], a[3])
            else:
                o[:] = [a[1], a[2], None]
        return 0

    def step(self, n):
        """frames; the position during a move is known to within the rounding of the steps"""
        for o in self.ofs.values():
            for _ in range(n):
                if o[2]:
                    x0, y0, x1, y1, total, left = o[2]
                    left -= 1
                    if not left:
                        o[:] = [x1, y1, None]
                    else:
                        o[2] = (x0, y0, x1, y1, total, left)

    def check_ofs(self, obs, where):
        for s in (0, 1):
            for l in (0, 1):
                gx, gy, _, _, gt = obs["ofs"][s * 2 + l]
                o = self.ofs[(s, l)]
                if o[2]:
                    x0, y0, x1, y1, total, left = o[2]
                    k = total - left
                    for g, v0, v1 in ((gx, x0, x1), (gy, y0, y1)):
                        if abs(g - (v0 + Fraction((v1 - v0) * k, total))) > k:
                            raise Bad("offset of screen %d layer %d is %s after %d of %d frames from %s to %s" % (s, l, g / 4096, k, total, v0 / 4096, v1 / 4096))
                    # the next statement may start from here
                    o[0], o[1] = gx, gy
                    if gt <= 0:
                        raise Bad("screen %d layer %d stopped %d frames early" % (s, l, left))
                else:
                    if (gx, gy) != (o[0], o[1]):
                        raise Bad("offset of screen %d layer %d is %s,%s instead of %s,%s" % (s, l, gx / 4096, gy / 4096, o[0] / 4096, o[1] / 4096))
                    if gt > 0:
                        raise Bad("screen %d layer %d still moves" % (s, l))
        if [list(c) for c in obs["clip"]] != self.clip:
            raise Bad("clip is %s instead of %s" % (obs["clip"], self.clip))
        if obs["page"] != self.page:
            raise Bad("page is %d instead of %d" % (obs["page"], self.page))


def coord(rng):
    r = rng.random()
    if r < .6:
        return rng.randrange(64)
    if r < .8:
        return rng.choice([0, 1, 31, 32, 33, 62, 63, 64, 65, -1, -2])
    return rng.choice([rng.randint(-200, 200), 127, 128, -64, -65, 524287, -524287, 1000, 256, -256])


def tile(rng, short=False):
    r = rng.random()
    if r < .45:
        t = [rng.choice([0, 1, 255, 256, 1023, rng.randrange(1024)]), rng.randrange(16), rng.randrange(2), rng.randrange(2)]
        if rng.random() < .04:
            t[rng.randrange(4)] = rng.choice([-1, 1024, 16, 2])
        return t
    if r < .75:
        return [rng.choice([rng.randrange(65536), rng.randrange(65536), 0, 65535, 65536, -1, -32768, 131071])]
    return ["%04X" % rng.randrange(65536) if rng.random() < .8 else rng.choice(["0", "F", "1F", "ABC", "", "XYZ", "12G4", "ffff", "FFFF"])]


def gen_op(rng):
    op = rng.choice(["BGPAGE", "BGPUT", "BGPUT", "BGPUT", "BGFILL", "BGFILL", "BGCOPY", "BGCOPY", "BGCLR", "BGCLIP", "BGOFS", "BGOFS", "BGOFS"])
    lay = rng.choice([0, 1]) if rng.random() < .97 else rng.choice([-1, 2])
    if op == "BGPAGE":
        a = [rng.choice([0, 1, 0, 1, 0, 1, 0, 1, 2, -1])]
    elif op == "BGCLR":
        a = [] if rng.random() < .4 else [lay]
    elif op == "BGCLIP":
        a = [rng.randrange(32), rng.randrange(24), rng.randrange(32), rng.randrange(24)]
        if rng.random() < .1:
            a[rng.randrange(4)] = rng.choice([-1, 32, 24, 31])
    elif op == "BGPUT":
        a = [lay, coord(rng), coord(rng)] + tile(rng)
    elif op == "BGFILL":
        a = [lay, coord(rng), coord(rng), coord(rng), coord(rng)] + tile(rng)
        if rng.random() < .4:
            a[3:5] = [a[1] + rng.randint(-5, 5), a[2] + rng.randint(-5, 5)]
    elif op == "BGCOPY":
        a = [lay, coord(rng), coord(rng), coord(rng), coord(rng), coord(rng), coord(rng)]
        if rng.random() < .5:
            a[3:5] = [a[1] + rng.randint(-9, 9), a[2] + rng.randint(-9, 9)]
        if rng.random() < .5:
            a[5:7] = [min(a[1], a[3]) + rng.randint(-6, 6), min(a[2], a[4]) + rng.randint(-6, 6)]
    else:
        v = lambda: rng.choice([rng.randint(-600, 600), rng.randint(-600, 600) + rng.choice([.5, .25]), rng.choice([0, 512, -512, 255, 524287, -524287])])
        a = [lay, v(), v()] + ([] if rng.random() < .4 else [rng.choice([0, 1, 2, 3, 7, 10, 60, rng.randint(1, 40), rng.choice([-1, 1000, 524287])])])
    return op, [min(max(x, -524287), 524287) if not isinstance(x, str) else x for x in a]


def run():
    ck = Check("C16")
    ck.rule = "statement x arguments (inside, at chunk edges, wrapped, huge; all notations) x history and frame steps; all screen banks compared after every statement; distinct = (statement, arguments)"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for k in range(ck.n(700, 20000)):
        acts, ops = ["sys", "bgdiff"], []
        for _ in range(rng.randint(6, 18)):
            if rng.random() < .25:
                n = rng.choice([1, 1, 2, 3, 5, 10])
                ops.append(("step", n))
                acts += ["bgstep %d" % n]
            else:
                op, a = gen_op(rng)
                ops.append((op, a))
                acts += [direct(op + " " + ",".join('"%s"' % x if isinstance(x, str) else str(x) for x in a) + "\r")]
            acts += ["bgdiff", "bg"]
            if rng.random() < .3:
                l, x, y = rng.randrange(2), coord(rng), coord(rng)
                x, y = max(x, -524287), max(y, -524287)
                ops.append(("read", (l, x, y)))
                acts += [direct("BGREAD (%d,%d,%d),A\rBGREAD (%d,%d,%d),A$\rBGREAD (%d,%d,%d),C,P,H,V\rM0=BGCHK(0):M1=BGCHK(1)\r" % ((l, x, y) * 3))]
                acts += ["var " + v for v in ("A", "A$", "C", "P", "H", "V", "M0", "M1")] + ["bgdiff", "bg"]
        if rng.random() < .15:  # slower than one 4096th of a pixel per frame
            l, t = rng.randrange(2), rng.randint(4097, 9000)
            for op, a in (("BGOFS", [l, 50, 60]), ("BGOFS", [l, 50 + rng.choice([0, 1, -1]), 60 + rng.choice([0, 1, -1]), t])):
                ops.append((op, a))
                acts += [direct(op + " " + ",".join(map(str, a)) + "\r"), "bgdiff", "bg"]
            for n in (t - 1, 1, 1):
                ops.append(("step", n))
                acts += ["bgstep %d" % n, "bgdiff", "bg"]
        cases.append(Case("b%d" % k, acts, ops))
    res = run_cases(binp, cases)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        m = Model()
        obs, pos = r.obs, 0

        def nxt(t):
            nonlocal pos
            while obs[pos]["t"] != t:
                pos += 1
            pos += 1
            return obs[pos - 1]
        got = {b: [0] * 4096 for b in range(8)}

        def sync():
            for b, x, y, v in nxt("bgdiff")["v"]:
                got[b][y * 64 + x] = v
        sync()
        rest = {b: list(got[b]) for b in (0, 1, 4, 5)}
        m.t = {b: list(got[b]) for b in (2, 3, 6, 7)}
        done = []
        try:
            for op, a in c.meta:
                done.append("%s %s" % (op, a))
                ck.case((op, str(a)))
                if op == "step":
                    m.step(a)
                    ck.count("frames", a)
                elif op == "read":
                    if nxt("run")["err"]:
                        raise Bad("BGREAD failed")
                    l, x, y = a
                    v = m.bank(l)[(y & 63) * 64 + (x & 63)]
                    vals = [nxt("var")["v"] for _ in range(8)]
                    vals[1] = "".join(chr(u & 0xff if u < 0x100 else u - 0xff10 + 48 if u <= 0xff19 else u - 0xff21 + 65) for u in uns(vals[1]))
                    want = [v * 4096, "%04X" % v] + [z * 4096 for z in (v & 1023, v >> 12, v >> 10 & 1, v >> 11 & 1)] + [4096 * bool(m.ofs[(m.page, q)][2]) for q in (0, 1)]
                    if vals != want:
                        raise Bad("read %s instead of %s" % (vals, want))
                    ck.count("BGREAD")
                else:
                    raw = [x if isinstance(x, str) else int(x * 4096) if op == "BGOFS" and i in (1, 2) else int(x) for i, x in enumerate(a)]
                    err = nxt("run")["err"]
                    want = m.do(op, raw)
                    ck.count(op + ("_err" if err else ""))
                    if err != want:
                        raise Bad("error %s instead of %s" % (E.name(err), E.name(want)))
                sync()
                for b in range(8):
                    w = rest.get(b) or m.t[b]
                    if got[b] != w:
                        i = next(i for i in range(4096) if got[b][i] != w[i])
                        raise Bad("bank %d: %d wrong tiles, first at %d,%d: %04X instead of %04X" % (b, sum(x != y for x, y in zip(got[b], w)), i % 64, i // 64, got[b][i], w[i]))
                m.check_ofs(nxt("bg"), op)
        except Bad as e:
            ck.violation(done[-1].split()[0], "%s: %s\nafter %s" % (done[-1], e, "; ".join(done[:-1])[-500:]), case_text(c))
    return ck.finish(min_evals=4000)


if __name__ == "__main__":
    main(run, "C16")
