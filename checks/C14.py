#!/usr/bin/env python3
"""C14: console cells, colours and cursor against a screen model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mini import *

CW, CH = 32, 24


class Screen:
    def __init__(self):
        self.t = [[0] * CW for _ in range(CH)]
        self.c = [[0] * CW for _ in range(CH)]
        self.x = self.y = self.col = 0
        self.tab, self.tabv = 4, 4 << 12
        self.scrolled = 0

    def fix(self):
        while self.y >= CH:
            self.y -= 1
            self.t = self.t[1:] + [[0] * CW]
            self.c = self.c[1:] + [[self.col] * CW]
            self.scrolled += 1

    def put(self, w):
        self.fix()
        self.t[self.y][self.x] = w
        self.c[self.y][self.x] = self.col
        self.x += 1
        if self.x == CW:
            self.x, self.y = 0, self.y + 1

    def newline(self):
        self.x, self.y = 0, self.y + 1
        self.fix()

    def out(self, s):
        # a pending scroll happens before anything is printed, even an empty text
        self.fix()
        for w in s:
            self.put(w)

    def comma(self):
        while True:
            self.put(W(b" ")[0])
            if self.x % self.tab == 0:
                return

    def cls(self):
        self.t = [[0] * CW for _ in range(CH)]
        self.c = [[self.col] * CW for _ in range(CH)]
        self.x = self.y = 0

    def text(self):
        return tuple(w for r in self.t for w in r)

    def colors(self):
        return tuple(w for r in self.c for w in r)


def lit_expr(rng, b):
    """a string expression for the bytes b"""
    out, cur = [], b""
    for ch in b:
        if ch == 0x22 or ch < 0x20:
            if cur:
                out.append('"%s"' % cur.decode("latin-1"))
                cur = b""
            out.append("CHR$(%d)" % ch)
        else:
            cur += bytes([ch])
    if cur or not out:
        out.append('"%s"' % cur.decode("latin-1"))
    return "+".join(out)


def value(rng):
    """(source, wide text)"""
    k = rng.random()
    if k < .3:
        n = rnd_fixp(rng) if rng.random() < .5 else rng.randint(-200, 200) << 12
        # the number is put together from its 4096ths
        t = "%d" % (n >> 12)
        if n & 4095:
            t = "(%s+%d/4096)" % (t if n >= 0 else t, n & 4095)
        if n >> 12 < -524287:
            t = "(-524287-1%s)" % ("+%d/4096" % (n & 4095) if n & 4095 else "")
        return t, W(fmt_num(n))
    if k < .85:
        b = rnd_text(rng, rng.choice([0, 1, 2, 5, 9, 20]), rng.choice([None, bytes(range(0x20, 0x100)), bytes(range(256)), b"ABC "]))
        if len(lit_expr(rng, b)) > 80:
            b = b[:6]
        e = lit_expr(rng, b)
        if rng.random() < .3 and b:
            n = rng.randint(0, 256 // len(b))
            e2 = "(%s)*%d" % (e, n)
            if len(e2) < 88:
                return e2, W(b * n)
        return e, W(b)
    n = rng.choice([31, 32, 33, 63, 64, 65, 96, 255, 256])
    c = rng.choice("xyz*")
    return '"%s"*%d' % (c, n), W(c.encode() * n)


def step(rng, m, ops, st):
    """appends one statement to ops and applies it to the model; returns an error code or 0"""
    k = rng.random()
    if k < .5:
        parts, src = [], "PRINT " if rng.random() < .8 else "?"
        n = rng.choice([0, 1, 1, 2, 3, 4])
        seq = []
        if rng.random() < .15:  # separators before the first value, or alone
            seq = [rng.choice(",;") for _ in range(rng.choice([1, 1, 2, 3]))]
            src += "".join(seq)
        for i in range(n):
            e, t = value(rng)
            if len(src) + len(e) > 95:
                break
            src += e
            seq.append(t)
            if i < n - 1 or rng.random() < .5:
                s = "".join(rng.choice(",;") for _ in range(rng.choice([1, 1, 1, 2])))
                src += s
                seq += list(s)
        while seq and len(src) > 97:
            src = src[:-1]
        for s in seq:
            if s == ",":
                m.comma()
            elif s != ";":
                m.out(s)
        if not seq or seq[-1] not in (",", ";"):
            m.newline()
        ops.append(src.rstrip(" ") if not seq else src)
        return 0
    if k < .68:
        inside = rng.random() < .85
        x = rng.choice([0, 31, 30, rng.randrange(CW)]) if inside else rng.choice([-1, 32, 33, 100, 524287, -524287])
        y = rng.choice([0, 23, 22, 23, rng.randrange(CH)]) if inside or rng.random() < .5 else rng.choice([-1, 24, 25, 100, 524287, -524287])
        fx = ".5" if rng.random() < .1 and x >= 0 else ""
        ops.append("LOCATE %d%s,%d" % (x, fx, y))
        if 0 <= x < CW and 0 <= y < CH:
            m.x, m.y = x, y
        return 0
    if k < .8:
        a = rng.randint(0, 15) if rng.random() < .95 else rng.choice([-1, 16, 255, 300])
        b = rng.randint(0, 15) if rng.random() < .95 else rng.choice([-1, 16, 255])
        if rng.random() < .5:
            ops.append("COLOR %d" % a)
            if not 0 <= a <= 15:
                return E.OUT_OF_RANGE
            m.col = m.col & 0xf0 | a
        else:
            ops.append("COLOR %d,%d" % (a, b))
            if not (0 <= a <= 15 and 0 <= b <= 15):
                return E.OUT_OF_RANGE
            m.col = a | b << 4
        return 0
    if k < .84:
        ops.append("CLS")
        m.cls()
        return 0
    if k < .89:
        t = rng.choice([1, 2, 3, 4, 5, 7, 8, 15, 16, 0, -3, 17, 100, 524287])
        ops.append("TABSTEP=%d" % t)
        m.tab = max(1, min(16, t))
        return 0
    if k < .95 and st["n"] < 60:
        inside = rng.random() < .85
        x = rng.randrange(CW) if inside else rng.choice([-1, 32, 33, 65536, -524287])
        y = rng.randrange(CH) if inside or rng.random() < .5 else rng.choice([-1, 24, 65536, 524287])
        ops.append("V[%d]=CHKCHR(%d,%d)" % (st["n"], x, y))
        v = -1
        if 0 <= x < CW and 0 <= y < CH:
            v = WIDE.index(m.t[y][x]) if m.t[y][x] in WIDE else -1
        st["v"].append(v << 12)
        st["n"] += 1
        return 0
    if st["n"] < 60:
        w = rng.choice("XY")
        ops.append("V[%d]=CSR%s" % (st["n"], w))
        st["v"].append((m.x if w == "X" else m.y) << 12)
        st["n"] += 1
    return 0


def run():
    ck = Check("C14")
    ck.rule = "a case counts as distinct by its final screen"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for i in range(ck.n(900, 15000)):
        m, st = Screen(), {"n": 0, "v": []}
        acts, want = [direct("DIM V[64]\rCLS\r".replace("\r", ":")[:-1] + "\r")], []
        mode = rng.random()
        for _ in range(rng.choice([1, 2, 4, 10])):
            ops, err = [], 0
            for _ in range(rng.choice([1, 2, 5, 12, 30])):
                err = step(rng, m, ops, st)
                if err:
                    break
            if rng.random() < .5 and len(ops) < 3 and len(":".join(ops)) < 100:
                acts.append(direct(":".join(ops) + "\r"))
            else:
                # join some statements on one line
                lines, cur = [], ""
                for o in ops:
                    if cur and len(cur) + len(o) < 99 and rng.random() < .4:
                        cur += ":" + o
                    else:
                        if cur:
                            lines.append(cur)
                        cur = o
                lines.append(cur)
                acts.append(prg("\r".join(lines) + "\r", rng.choice([0, 2]) if "DIM" not in lines[0] and False else 0))
            acts.append("con")
            want.append((err, m.text(), m.colors(), m.x, m.y, m.col, ops))
        acts.append("arr V")
        cases.append(Case("c%d" % i, acts, (want, st, m.scrolled)))
    res = run_cases(binp, cases)
    for c in cases:
        want, st, scrolled = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        runs, cons = r.all("run")[1:], r.all("con")
        ok = True
        for (err, t, col, x, y, cc, ops), o, con in zip(want, runs, cons):
            ck.count("statements", len(ops))
            ck.count("cells_compared", CW * CH)
            txt = "\n".join(ops)
            if o["err"] != err:
                ck.violation("error", "expected %s, got %s\n%s" % (E.name(err), E.name(o["err"]), txt), case_text(c))
            elif uns(con["text"]) != t:
                g = uns(con["text"])
                d = [(j % CW, j // CW, g[j], t[j]) for j in range(CW * CH) if g[j] != t[j]]
                ck.violation("text", "%d cells differ, first (x,y,shown,expected) %s\n%s" % (len(d), d[0], txt), case_text(c))
            elif bytes.fromhex(con["color"]) != bytes(col):
                g = bytes.fromhex(con["color"])
                d = [(j % CW, j // CW, g[j], col[j]) for j in range(CW * CH) if g[j] != col[j]]
                ck.violation("colour", "%d colours differ, first (x,y,shown,expected) %s\n%s" % (len(d), d[0], txt), case_text(c))
            elif (con["x"], con["y"], con["col"]) != (x, y, cc):
                ck.violation("cursor", "cursor %s, expected %s\n%s" % ((con["x"], con["y"], con["col"]), (x, y, cc), txt), case_text(c))
            else:
                continue
            ok = False
            break
        ck.count("lines_scrolled", scrolled)
        ck.case((want[-1][1], want[-1][2]))
        if ok:
            v = r.get("arr")["v"]
            if v is not None and v[:st["n"]] != st["v"]:
                j = next(j for j in range(st["n"]) if v[j] != st["v"][j])
                ck.violation("report", "CHKCHR/CSR value %d is %s, expected %s" % (j, v[j] / 4096, st["v"][j] / 4096), case_text(c))
            ck.count("reported_values", st["n"])
            ck.sample("|".join(want[-1][6])[:120])
    return ck.finish(min_evals=600)


if __name__ == "__main__":
    main(run, "C14")
