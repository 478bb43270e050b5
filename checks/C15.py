#!/usr/bin/env python3
"""C15: graphics statements against a pixel model; all four pages are compared after every statement."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

W_, H_ = 256, 192
OOR, IFC, RES, PSO = E.OUT_OF_RANGE, E.ILLEGAL_FUNCTION_CALL, E.INVALID_RESOURCE_TYPE, E.PAINT_STACK_OVERFLOW
CHRS = ["BGU0U", "BGU3L", "BGF0U", "BGD1L", "SPU7", "SPU0U", "SPS1U", "SPD3L", "BGU1", "SPS0"]


class Bad(Exception):
    pass


class Model:
    def __init__(self):
        self.pg = [bytearray(W_ * H_) for _ in range(4)]
        self.screen, self.color, self.mode = 0, 0, 0
        self.draw, self.disp, self.prio = [0, 1], [0, 1], [3, 3]
        self.chr = {}

    def state(self):
        return {"screen": self.screen, "color": self.color, "mode": self.mode, "info": [[self.draw[s], self.disp[s], self.prio[s]] for s in (0, 1)]}

    def page(self):
        return self.pg[self.draw[self.screen]]

    def dot(self, pg, x, y, c):
        if 0 <= x < W_ and 0 <= y < H_:
            if self.mode:
                pg[y * W_ + x] ^= c
            else:
                pg[y * W_ + x] = c

    # exact statements change self.pg; others return a checker(before, after)
    def do(self, op, a):
        """-> (allowed errors, checker or None)"""
        pg = self.page()
        if op == "GPAGE":
            if not 0 <= a[0] <= 1 or any(not 0 <= v <= 3 for v in a[1:]):
                return {OOR}, None
            self.screen = a[0]
            if len(a) == 3:
                self.draw[a[0]], self.disp[a[0]] = a[1], a[2]
            return {0}, None
        if op == "GCOLOR":
            if not 0 <= a[0] <= 255:
                return {OOR}, None
            self.color = a[0]
            return {0}, None
        if op == "GDRAWMD":
            if not 0 <= a[0] <= 1:
                return {OOR}, None
            self.mode = a[0]
            return {0}, None
        if op == "GPRIO":
            if not 0 <= a[0] <= 3:
                return {OOR}, None
            self.prio[self.screen] = a[0]
            return {0}, None
        ncoord = {"GCLS": 0, "GPSET": 2, "GLINE": 4, "GBOX": 4, "GFILL": 4, "GCIRCLE": 3, "GPAINT": 2}.get(op)
        if ncoord is not None:
            c = a[ncoord] if len(a) > ncoord else self.color
            if not 0 <= c <= 255:
                return {OOR}, None
        if op == "GCLS":
            pg[:] = bytes([c]) * (W_ * H_)
        elif op == "GPSET":
            self.dot(pg, a[0], a[1], c)
        elif op in ("GFILL", "GBOX"):
            x1, x2 = sorted((a[0], a[2]))
            y1, y2 = sorted((a[1], a[3]))
            for y in range(max(y1, 0), min(y2, H_ - 1) + 1):
                if op == "GFILL" or y in (y1, y2):
                    for x in range(max(x1, 0), min(x2, W_ - 1) + 1):
                        self.dot(pg, x, y, c)
                else:
                    for x in {x1, x2}:
                        self.dot(pg, x, y, c)
        elif op == "GLINE":
            return {0}, lambda b, n: self.line(b, n, a, c)
        elif op == "GCIRCLE":
            return {0}, lambda b, n: self.circle(b, n, a, c)
        elif op == "GPAINT":
            x, y = a[0], a[1]
            if len(a) > 3 and not 0 <= a[3] <= 255:
                return ({OOR} if 0 <= x < W_ and 0 <= y < H_ else {0, OOR}), None
            if 0 <= x < W_ and 0 <= y < H_:
                border = a[3] if len(a) > 3 else None
                new = self.flood(pg, x, y, c, border)
                before = bytes(pg)
                def chk(b, n, err=0):
                    if err == PSO:  # a limit: everything painted so far must belong to the area
                        for i in range(W_ * H_):
                            if n[i] != before[i] and (n[i] != new[i]):
                                raise Bad("pixel %d,%d outside of the area was painted" % (i % W_, i // W_))
                    elif n != new:
                        i = next(i for i in range(W_ * H_) if n[i] != new[i])
                        raise Bad("%d wrong pixels, first at %d,%d: %d instead of %d" % (sum(x != y for x, y in zip(n, new)), i % W_, i // W_, n[i], new[i]))
                return {0, PSO}, chk
        elif op == "GCOPY":
            src = self.pg[a[0]] if len(a) == 8 and 0 <= a[0] <= 3 else pg
            if len(a) == 8:
                if not 0 <= a[0] <= 3:
                    return {OOR}, None
                a = a[1:]
            src = bytes(src)
            x1, x2 = sorted((a[0], a[2]))
            y1, y2 = sorted((a[1], a[3]))
            dx, dy, m = a[4] - x1, a[5] - y1, a[6]
            for ty in range(max(0, y1 + dy), min(H_ - 1, y2 + dy) + 1):
                for tx in range(max(0, x1 + dx), min(W_ - 1, x2 + dx) + 1):
                    sx, sy = tx - dx, ty - dy
                    v = src[sy * W_ + sx] if 0 <= sx < W_ and 0 <= sy < H_ else 0
                    if m or v:
                        pg[ty * W_ + tx] = v
        elif op == "GPUTCHR":
            x, y, name, ch, pal, size = a
            if not 0 <= ch <= 255 or not 0 <= pal <= 15:
                return {OOR}, None
            if size not in (1, 2, 4, 8):
                return {IFC}, None
            if name not in CHRS:
                return {RES}, None
            data = self.chr.get((name, ch))
            if data is None:
                return None, None
            for py in range(8):
                for px in range(8):
                    v = data[py * 8 + px]
                    if v:
                        for i in range(size):
                            for j in range(size):
                                self.dot(pg, x + px * size + j, y + py * size + i, 16 * pal + v)
        return {0}, None

    def flood(self, pg, x, y, c, border):
        start = pg[y * W_ + x]
        new = bytearray(pg)
        if border is None:
            def ins(v):
                return v == start and v != c
        else:
            def ins(v):
                return v != border and v != c
        todo = [y * W_ + x]
        ok = [ins(v) for v in range(256)]
        while todo:
            i = todo.pop()
            if not ok[new[i]]:
                continue
            new[i] = c
            xx = i % W_
            if xx > 0:
                todo.append(i - 1)
            if xx < W_ - 1:
                todo.append(i + 1)
            if i >= W_:
                todo.append(i - W_)
            if i < W_ * (H_ - 1):
                todo.append(i + W_)
        return new

    def want(self, v, c):
        return v ^ c if self.mode else c

    def line(self, b, n, a, c):
        x1, y1, x2, y2 = a[:4]
        steep = abs(y2 - y1) > abs(x2 - x1)
        if steep:
            x1, y1, x2, y2 = y1, x1, y2, x2
        if x1 > x2:
            x1, y1, x2, y2 = x2, y2, x1, y1
        lim, lim2 = (H_, W_) if steep else (W_, H_)
        allowed = set()
        changed = {i for i in range(W_ * H_) if b[i] != n[i]} if b != n else set()
        for u in range(max(x1, 0), min(x2, lim - 1) + 1):
            ideal = y1 + (Fraction((y2 - y1) * (u - x1), x2 - x1) if x2 > x1 else 0)
            tol = Fraction(1, 2) + Fraction(u - x1, 4096)
            lo, hi = math.ceil(ideal - tol), math.floor(ideal + tol)
            cand, off = [], lo < 0 or hi >= lim2
            for v in range(max(lo, 0), min(hi, lim2 - 1) + 1):
                cand.append(u * W_ + v if steep else v * W_ + u)
            if not cand:
                continue
            allowed.update(cand)
            ch = [i for i in cand if i in changed]
            if len(ch) > 1:
                raise Bad("more than one pixel drawn at step %d" % u)
            if not ch and not off and c and (self.mode or all(b[i] != c for i in cand)):
                raise Bad("no pixel drawn at step %d" % u)
            if not ch and not off and not c and not self.mode and all(b[i] for i in cand):
                raise Bad("no pixel drawn at step %d" % u)
        for i in changed:
            if i not in allowed:
                raise Bad("pixel %d,%d is not on the line" % (i % W_, i // W_))
            if n[i] != self.want(b[i], c):
                raise Bad("pixel %d,%d became %d" % (i % W_, i // W_, n[i]))

    def circle(self, b, n, a, c):
        cx, cy, r = a[:3]
        changed = [i for i in range(W_ * H_) if b[i] != n[i]] if b != n else []
        for i in changed:
            if n[i] != self.want(b[i], c):
                raise Bad("pixel %d,%d became %d" % (i % W_, i // W_, n[i]))
        if r < 0:  # not a documented shape: only the colour and the distance are checked
            for i in changed:
                if math.hypot(i % W_ - cx, i // W_ - cy) > -r + 2:
                    raise Bad("pixel %d,%d is outside of the circle" % (i % W_, i // W_))
            return
        for i in changed:
            d = math.hypot(i % W_ - cx, i // W_ - cy)
            if not r - 2.3 <= d <= r + 1.6:
                raise Bad("pixel %d,%d is %.2f from the centre" % (i % W_, i // W_, d))
        drawn = lambda x, y: n[y * W_ + x] == self.want(b[y * W_ + x], c)
        # the rightmost point is exact, all directions must be covered
        if 0 <= cx + r < W_ and 0 <= cy < H_ and not drawn(cx + r, cy):
            raise Bad("%d,%d was not drawn" % (cx + r, cy))
        for k in range(min(8 * r + 1, 2000)):
            t = 2 * math.pi * k / min(8 * r + 1, 2000)
            x, y = cx + r * math.cos(t), cy + r * math.sin(t)
            x0, y0 = round(x), round(y)
            near = [(u, v) for u in range(x0 - 2, x0 + 3) for v in range(y0 - 2, y0 + 3)]
            if any(not (0 <= u < W_ and 0 <= v < H_) for u, v in near):
                continue
            if not any(drawn(u, v) and math.hypot(u - x, v - y) < 2.1 for u, v in near):
                raise Bad("no pixel near %.1f,%.1f" % (x, y))
        if self.mode and c and len(changed) > 0 and r > 3 and cx - r > 2 and cx + r < W_ - 2 and cy - r > 2 and cy + r < H_ - 2:
            # a closed outline: nothing was toggled away
            on = set(changed)
            seen, todo = set(), [changed[0]]
            while todo:
                i = todo.pop()
                if i in seen or i not in on:
                    continue
                seen.add(i)
                todo += [i + d for d in (-1, 1, -W_, W_, -W_ - 1, -W_ + 1, W_ - 1, W_ + 1)]
            if len(seen) != len(on):
                raise Bad("the outline falls apart into pieces")


from fractions import Fraction


def coord(rng, lim):
    r = rng.random()
    if r < .55:
        return rng.randrange(lim)
    if r < .75:
        return rng.choice([0, 1, lim - 1, lim, -1, lim - 2, lim // 2, 63, 64, 7, 8, 127, 128])
    if r < .93:
        return rng.randint(-60, lim + 60)
    return rng.choice([-1000, 1000, 5000, -5000, 524287, -524288, 255, 256, 65536, -65536])


def color(rng):
    return rng.choice([0, 1, 255, 15, 16]) if rng.random() < .3 else rng.randrange(256)


def gen_op(rng, m):
    op = rng.choice(["GPAGE", "GPAGE", "GCOLOR", "GDRAWMD", "GPRIO", "GCLS", "GPSET", "GPSET", "GLINE", "GLINE", "GLINE", "GBOX", "GBOX", "GFILL", "GFILL", "GCIRCLE", "GCIRCLE", "GPAINT", "GPAINT", "GCOPY", "GCOPY", "GPUTCHR", "GPUTCHR"])
    X, Y = lambda: coord(rng, W_), lambda: coord(rng, H_)
    opt = [color(rng)] if rng.random() < .7 else []
    if rng.random() < .02:
        opt = [rng.choice([-1, 256, 300])]
    if op == "GPAGE":
        a = [rng.randrange(2)] + ([rng.randrange(4), rng.randrange(4)] if rng.random() < .6 else [])
        if rng.random() < .05:
            a = rng.choice([[2], [-1], [0, 4, 0], [1, 0, 4], [2, 0, 0], [1, -1, 0]])
    elif op == "GCOLOR":
        a = opt or [0]
    elif op == "GDRAWMD":
        a = [rng.choice([0, 1, 1, 0, 0, 2, -1] if rng.random() < .2 else [0, 1])]
    elif op == "GPRIO":
        a = [rng.choice([0, 1, 2, 3, 3, 4, -1])]
    elif op == "GCLS":
        a = opt
    elif op == "GPSET":
        a = [X(), Y()] + (opt if not opt or 0 <= opt[0] <= 255 else [])
    elif op in ("GLINE", "GBOX", "GFILL"):
        a = [X(), Y(), X(), Y()]
        if rng.random() < .3:
            a[2:] = [a[0] + rng.randint(-6, 6), a[1] + rng.randint(-6, 6)]
        if op != "GLINE" and rng.random() < .15:
            a[2] = a[0]
        a = [min(max(v, -524288), 524287) for v in a] + opt
    elif op == "GCIRCLE":
        a = [X(), Y(), rng.choice([0, 1, 2, 3, rng.randint(0, 20), rng.randint(0, 120), rng.randint(0, 120), rng.randint(0, 400), rng.choice([-1, -5, -15, -16, -100, 5000, 60000])])] + opt
        if abs(a[0]) > 60000 or abs(a[1]) > 60000:
            a[0], a[1] = 100, 100
    elif op == "GPAINT":
        a = [X(), Y()] + opt + ([color(rng)] if opt and rng.random() < .5 else [])
        if len(a) == 4 and rng.random() < .7:
            a[3] = rng.choice(list(m.page()[::997]))
    elif op == "GCOPY":
        a = [X(), Y(), X(), Y(), X(), Y(), rng.choice([0, 1, 1, 0, 2])]
        if rng.random() < .4:
            a[4:6] = [min(a[0], a[2]) + rng.randint(-9, 9), min(a[1], a[3]) + rng.randint(-9, 9)]
        a = [min(max(v, -100000), 100000) for v in a]
        if rng.random() < .5:
            a = [rng.randrange(4) if rng.random() < .95 else rng.choice([-1, 4])] + a
    else:
        name, ch = rng.choice(sorted(m.chr)) if rng.random() < .96 else (rng.choice(["GRP0", "COL0", "XYZ", "", "BGU9", "MEM"]), 0)
        a = [X(), Y(), name, ch, rng.randrange(16), rng.choice([1, 1, 2, 2, 4, 8])]
        if rng.random() < .04:
            a[rng.choice([3, 4, 5])] = rng.choice([-1, 256, 16, 3, 0])
            if not (a[4] in range(16) and a[3] in range(256) and a[5] in (1, 2, 4, 8)):
                pass
    return op, a


def text(rng, op, a):
    def num(v):
        if isinstance(v, str):
            return '"%s"' % v
        r = rng.random()
        if r < .06 and abs(v) < 100000:
            return "%d.%s" % (v, rng.choice(["0", "5", "999"])) if v >= 0 else "(%d+.25)" % v
        return str(v) if v > -524288 else "(-524287-1)"
    return op + " " + ",".join(num(v) for v in a)


def xor_part(ck, binp):
    """on an empty page the drawing modes give the same picture: a shape consists of every pixel once"""
    rng = ck.rng
    cases = []
    for k in range(ck.n(150, 3000)):
        ts, m = [], Model()
        m.chr[("BGU0U", 1)] = []
        for _ in range(6):
            while True:
                op, a = gen_op(rng, m)
                if op in ("GLINE", "GBOX", "GFILL"):
                    break
                if rng.random() < .3:
                    op = "GCIRCLE"
                    r = rng.choice([rng.randint(0, 60), rng.randint(60, 200), rng.randint(100, 400)])
                    x, y = (rng.randrange(256), rng.randrange(192)) if r < 60 else (128 + rng.randint(-1, 1) * r + rng.randint(-60, 60), 96 + rng.randint(-1, 1) * r * (rng.random() < .5) + rng.randint(-50, 50))
                    a = [x, y, r, 1]
                    if rng.random() < .3:
                        a += sorted([rng.randrange(361), rng.randrange(361)])
                    break
            n = 3 if op == "GCIRCLE" else 4
            a = a[:n] + [rng.choice([1, 5, 128, 255])] + a[n + 1:]
            ts.append(op + " " + ",".join("(-524287-1)" if v == -524288 else str(v) for v in a))
        acts = ["sys"]
        for t in ts:
            for md in (0, 1):
                acts += [direct("GDRAWMD 0:GCLS 0:GDRAWMD %d\r" % md), "grpdiff", direct(t + "\r"), "grpdiff"]
        cases.append(Case("x%d" % k, acts, ts))
    res = run_cases(binp, cases)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        d = [o["v"] for o in r.obs if o["t"] == "grpdiff"][1::2]
        e = [o["err"] for o in r.obs if o["t"] == "run"][1::2]
        for i, t in enumerate(c.meta):
            ck.case(("xor", t), bool(d[2 * i]))
            ck.count("both_modes")
            if d[2 * i] != d[2 * i + 1] or e[2 * i] != e[2 * i + 1]:
                px = [{(y, x + j): v[2 * j:2 * j + 2] for p, y, x, v in q for j in range(len(v) // 2)} for q in d[2 * i:2 * i + 2]]
                k = sorted(set(px[0].items()) ^ set(px[1].items()))[:3]
                ck.violation("modes:%s" % t.split()[0], "%s on an empty page gives %d pixels, %d in XOR mode; differences %s" % (t, len(px[0]), len(px[1]), k), case_text(c))


def run():
    ck = Check("C15")
    ck.rule = "statement x arguments (in page, edge, off page, huge) x mode x history; all four pages compared after every statement; distinct = (statement, arguments, mode)"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for k in range(ck.n(420, 8000)):
        # the generator follows a model of its own (tolerant shapes are left out of it)
        m = Model()
        acts, ops = ["sys"], []
        m.cur = {"B": rng.choice([0, 0, 1]), "S": rng.choice([0, 0, 1])}  # selected background and sprite pages
        acts += [direct(t + "\r") for t, v in (("BGPAGE 1", m.cur["B"]), ("SPPAGE 1", m.cur["S"])) if v]
        for _ in range(3):
            name, ch = rng.choice(CHRS), rng.choice([0, 1, 31, 255, rng.randrange(256)])
            data = [rng.choice([0, 0, 15, rng.randrange(16)]) for _ in range(64)]
            if (name, ch) not in m.chr and not any(n[:4] == name[:4] or n[:3] == name[:3] for n, _ in m.chr):
                m.chr[(name, ch)] = data
                acts.append(direct('CHRSET"%s",%d,"%s"\r' % (name, ch, "".join("%X" % v for v in data))))
        acts += ["resfill col %d %d" % (b, rng.randrange(1 << 30)) for b in range(6)]
        for b in range(6):
            pal = rng.randrange(16)
            i = rng.randrange(16)
            v = "%04X" % rng.randrange(65536)
            acts.append(direct('COLSET"COL%d%s",%d,"%s"\r' % (b % 3, "UL"[b // 3], pal * 16 + i, v)))
        acts += ["colbank %d" % b for b in range(6)] + ["grpdiff"]
        if rng.random() < .3:  # a patterned page
            src = "FOR I=0 TO 40:GPSET RND(256),RND(192),RND(4):GLINE RND(256),RND(192),RND(256),RND(192),RND(4):NEXT\r"
            if rng.random() < .3:
                src = "FOR I=0 TO 3000:GPSET RND(256),RND(192),RND(4):NEXT\r"
            acts += [direct(src), "grpdiff"]
        maze = None
        if rng.random() < .25:  # a small labyrinth to paint
            x0, y0, w, h = rng.choice([0, 255 - 30, rng.randrange(226)]), rng.choice([0, 191 - 18, rng.randrange(174)]), rng.randint(5, 30), rng.randint(4, 18)
            maze = x0, y0, w, h
            wall = rng.choice([1, 1, 1, 255, 254, 16, 128, 15])
            acts += [direct("GCLS 0\r"), direct("FOR I=1 TO %d:GPSET %d+RND(%d),%d+RND(%d),%d:NEXT\r" % (w * h * rng.randint(10, 60) // 100, x0, w, y0, h, wall)),
                     direct("GBOX %d,%d,%d,%d,%d\r" % (x0, y0, min(x0 + w, 255), min(y0 + h, 191), wall)), "grpdiff"]
            if rng.random() < .5:
                acts += [direct("FOR I=1 TO %d:X=%d+RND(%d):GLINE X,%d,X,%d+RND(%d),%d:NEXT\r" % (rng.randint(1, 6), x0, w, y0 + 1, y0, h, wall)), "grpdiff"]
        n0 = len([a for a in acts if a == "grpdiff"])
        for _ in range(rng.randint(6, 16)):
            op, a = gen_op(rng, m)
            if maze and rng.random() < .6:
                x0, y0, w, h = maze
                op, a = "GPAINT", [x0 + rng.randrange(w), y0 + rng.randrange(h), rng.choice([0, 1, 2, 3, 7, wall, 255])] + ([rng.choice([wall, wall, 1, 0, 2])] if rng.random() < .3 else [])
            ops.append((op, a))
            t = text(rng, op, a)
            acts += [direct(t + "\r"), "grpdiff", "gstate"]
            if op == "GPUTCHR":
                acts += ["colbank %d" % b for b in range(6)]
        # read some pixels back
        pts = [(rng.randrange(4), max(coord(rng, W_), -524287), max(coord(rng, H_), -524287)) for _ in range(5)]
        src = "".join("S%d=GSPOIT(%d,%d,%d):T%d=GSPOIT(%d,%d)\r" % (i, p, x, y, i, x, y) for i, (p, x, y) in enumerate(pts))
        acts += [prg(src)] + ["var %s%d" % (v, i) for i in range(5) for v in "ST"]
        cases.append(Case("g%d" % k, acts, (m.chr, ops, n0, pts, m.cur)))
    res = run_cases(binp, cases)
    for c in cases:
        chrs, ops, n0, pts, page = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        m = Model()
        m.chr = chrs
        obs = list(r.obs)
        pos = 0
        cols = [None] * 6

        def nxt(t):
            nonlocal pos
            while obs[pos]["t"] != t:
                if obs[pos]["t"] == "colbank":
                    cols[obs[pos]["b"]] = obs[pos]["v"]
                pos += 1
            pos += 1
            return obs[pos - 1]

        def apply(d):
            new = [bytearray(x) for x in m.pg] if d else m.pg
            for p, y, x, v in d:
                b = bytes.fromhex(v)
                new[p][y * W_ + x:y * W_ + x + len(b)] = b
            return new
        for _ in range(n0):
            m.pg = apply(nxt("grpdiff")["v"])
        done = []
        try:
            for op, a in ops:
                done.append("%s %s" % (op, a))
                err = nxt("run")["err"]
                after = apply(nxt("grpdiff")["v"])
                st = nxt("gstate")
                if op == "GPUTCHR":
                    now = list(cols)
                    for _ in range(6):
                        o = nxt("colbank")
                        now[o["b"]] = o["v"]
                before = [bytes(x) for x in m.pg]
                cur = m.draw[m.screen]
                allowed, chk = m.do(op, a)
                if allowed is None:
                    m.pg = after
                    if op == "GPUTCHR":
                        cols[:] = now
                    continue
                ck.case((op, tuple(a), m.mode))
                ck.count(op + ("_xor" if m.mode and op in ("GPSET", "GLINE", "GBOX", "GFILL", "GCIRCLE", "GPUTCHR") else "") + ("" if not err else "_err%d" % err))
                if err not in allowed:
                    raise Bad("error %s instead of %s" % (E.name(err), [E.name(x) for x in allowed]))
                for p in range(4):
                    if p != cur and after[p] != before[p]:
                        raise Bad("page %d changed, but %d is the drawing page" % (p, cur))
                if op == "GPAINT" and chk:
                    chk(before[cur], after[cur], err)
                elif chk:
                    chk(before[cur], after[cur])
                elif err:
                    if after[cur] != before[cur]:
                        raise Bad("pixels changed although the statement failed")
                elif after[cur] != m.pg[cur]:
                    i = next(i for i in range(W_ * H_) if after[cur][i] != m.pg[cur][i])
                    raise Bad("%d wrong pixels, first at %d,%d: %d instead of %d (was %d)" % (sum(x != y for x, y in zip(after[cur], m.pg[cur])), i % W_, i // W_, after[cur][i], m.pg[cur][i], before[cur][i]))
                m.pg = after
                got = {k: st[k] for k in ("screen", "color", "mode", "info")}
                if err and op == "GPAGE":  # what a failed GPAGE leaves behind is not specified
                    m.screen, m.draw, m.disp = got["screen"], [got["info"][0][0], got["info"][1][0]], [got["info"][0][1], got["info"][1][1]]
                if got != m.state():
                    raise Bad("drawing state %s instead of %s" % (got, m.state()))
                if op == "GPUTCHR" and not err:
                    name, pal = a[2], a[4]
                    for b in range(6):
                        exp = cols[b]
                        if b == m.screen * 3 + 2:
                            s = {"U": 0, "L": 1}.get(name[-1] if len(name) > 3 else "U")
                            if s is None:
                                s = page[name[0]]  # the selected page of the background or sprites
                            src = cols[s * 3 + (0 if name[0] == "B" else 1)]
                            exp = exp[:pal * 64] + src[pal * 64:pal * 64 + 64] + exp[pal * 64 + 64:]
                        if now[b] != exp:
                            raise Bad("colour bank %d is wrong after GPUTCHR" % b)
                    cols[:] = now
            if nxt("run")["err"]:
                raise Bad("GSPOIT failed")
            for p, x, y in pts:
                inside = 0 <= x < W_ and 0 <= y < H_
                for v, page in ((nxt("var")["v"], p), (nxt("var")["v"], m.draw[m.screen])):
                    want = m.pg[page][y * W_ + x] if inside else -1
                    if v != want * 4096:
                        done.append("GSPOIT")
                        raise Bad("GSPOIT(%d,%d,%d) is %s instead of %d" % (page, x, y, v / 4096, want))
        except Bad as e:
            ck.violation("%s" % done[-1].split()[0], "%s: %s\nafter %s" % (done[-1], e, "; ".join(done[:-1])[-600:]), case_text(c))
    # GPAINT may give up on complicated areas, but not always
    xor_part(ck, binp)
    return ck.finish(min_evals=1500 if ck.cov.get("GPAINT", 0) >= 50 * ck.n(420, 420) / 420 else 10 ** 9)


if __name__ == "__main__":
    main(run, "C15")
