#!/usr/bin/env python3
"""C24: touch histories on the panel keyboard and the panel statements, judged by a model of the keyboard layout, the shift states, the repeat and the panel's cells."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mini import *

# ---- layout: per row its height in 8-pixel cells and (key code, width in cells); 0 is no key
LAYOUT = [
    (2, [(101, 6), (102, 6), (103, 6), (104, 6), (105, 6), (106, 2)]),
    (4, [(0, 32)]),
    (3, [(1, 3)] + [(k, 2) for k in range(2, 15)] + [(15, 3)]),
    (3, [(k, 2) for k in range(16, 32)]),
    (3, [(32, 3)] + [(k, 2) for k in range(33, 47)] + [(0, 1)]),
    (3, [(47, 4)] + [(k, 2) for k in range(48, 60)] + [(60, 4)]),
    (2, [(61, 2), (0, 1), (62, 2), (63, 2), (64, 2), (0, 1), (65, 14), (0, 1), (66, 2), (67, 2), (0, 1), (68, 2)]),
    (1, [(0, 32)]),
    (3, [(70, 4), (0, 1), (71, 6), (72, 6), (0, 1), (80, 2), (90, 3), (91, 3), (92, 3), (93, 3)]),
]
CELLS = []
for _h, _row in LAYOUT:
    _r = [k for k, w in _row for _ in range(w)]
    assert len(_r) == 32
    CELLS += [_r] * _h
assert len(CELLS) == 24


def key_at(x, y):
    k = CELLS[y // 8][x // 8]
    return 81 if k == 80 and y >= 180 else k


# ---- characters of the keys, one list per row of keys
def keys(first, s):
    return dict((first + i, c if isinstance(c, bytes) else bytes([c])) for i, c in enumerate(s) if c)


def table(r1, r2, r3, r4):
    t = {32: b"\t", 60: b"\r", 65: b" "}
    for f, r in ((2, r1), (16, r2), (33, r3), (48, r4)):
        t.update(keys(f, r))
    return t


D = b"\xde"
TYPED = [
    table(b"1234567890-+=", b"$\"QWERTYUIOP@*()", b"!ASDFGHJKL;:<>", b"'ZXCVBNM,./%"),
    table(b"\0\0#\0\0&\0^\\~\0\x7f|", b"\0\0qwertyuiop`\0[]", b"\0asdfghjkl\0\0{}", b"\0zxcvbnm\0\0?_"),
    table(b"\xF1\xF2\xF0\xF3\x0A\xE5\x1A\xE4\xE6\xE7\x10\x07\x14", b"\x03\x96\x98\x91\x99\xEC\xEE\xEF\xED\x0E\x0F\x05\x06\x04\x0B\x1B",
          b"\x95\x92\x93\x94\x15\x17\x16\xF4\xF6\xF7\xF5\xEB\xEA\xE8", b"\xFF\x9A\x90\x9B\xFC\xFD\xFE\x97\x9C\x9D\x9E\x9F"),
    table(b"\0\x80\0\0\0\xE1\0\xE0\xE2\xE3\x11\x08\0", b"\0\0\xF8\x1E\xFA\x01\x02\x18\x19\x0C\x12\x13\0\0\xE9\0",
          b"\0\x1D\0\x1C\0\x81\x82\x83\x84\x85\x86\x87\0\0", b"\0\0\xF9\x1F\xFB\x88\x89\x8A\x8B\x8C\x8D\x8E\x8F"[1:]),
    table(b"\xB1\xB2\xB3\xB4\xB5\xC5\xC6\xC7\xC8\xC9-+=", b"\xA0\xA5\xB6\xB7\xB8\xB9\xBA\xCA\xCB\xCC\xCD\xCE\xA2\xA3\xDD\xA1",
          b"\xBB\xBC\xBD\xBE\xBF\xCF\xD0\xD1\xD2\xD3\xD4\xD5\xD6\xA4", b"\xC0\xC1\xC2\xC3\xC4\xD7\xD8\xD9\xDA\xDB\xDC\xA6"),
    table([b"\xA7", b"\xA8", b"\xA9", b"\xAA", b"\xAB", 0, 0, 0, 0, 0, b"\xCA\xDF", b"\xCB\xDF", b"\xCC\xDF"],
          [b"\xAF"] + [bytes([c]) + D for c in b"\xB3\xB6\xB7\xB8\xB9\xBA\xCA\xCB\xCC\xCD\xCE"] + [b"\xCD\xDF", b"\xCE\xDF", 0, 0],
          [bytes([c]) + D for c in b"\xBB\xBC\xBD\xBE\xBF"] + list(b"12345\xAC\xAD\xAE") + [0],
          [bytes([c]) + D for c in b"\xC0\xC1\xC2\xC3\xC4"] + list(b"67890") + [0, 0]),
]
NAMES = ["OFF", "PNL", "KYA", "KYM", "KYK"]
HELD, EVERY = 30, 5


class Panel:
    def __init__(self):
        self.type, self.shift, self.caps, self.insert = "KYA", False, False, True
        self.func = [W(b"FILES"), W(b"LOAD\""), W(b"SAVE\""), W(b"CONT"), W(b"RUN")]
        self.icons = [None] * 4
        self.text = [[0] * 32 for _ in range(24)]
        self.col = [[0] * 32 for _ in range(24)]
        self.use, self.pmax, self.page = 0, 0, 0
        self.held, self.time, self.stuck, self.now = 0, 0, False, 0
        self.typed = []
        self.brk = False
        self.seen = set()

    def at(self, x, y):
        k = key_at(x, y)
        return 80 if k == 81 and not self.use else k

    def frame(self, t, x=0, y=0):
        """one frame: self.now is the key that acts in it"""
        self.now = 0
        self.typed = []
        if not t:
            self.held, self.stuck = 0, False
            return
        k = self.at(x, y)
        if self.stuck:
            return
        if self.held:
            if k != self.held:
                self.held, self.stuck = 0, True
                return
            self.time += 1
        elif k:
            self.held, self.time = k, 1
        else:
            return
        if self.time == 1 or self.time > HELD and (self.time - HELD - 1) % EVERY == 0:
            self.act(self.held)

    def act(self, k):
        self.now = k
        self.seen.add((k, self.type, self.shift != self.caps))
        if self.use:
            if k == 80 and self.page > 0:
                self.page -= 1
            if k == 81 and self.page < self.pmax:
                self.page += 1
        if self.type in ("OFF", "PNL"):
            return
        if k == 1:
            self.brk = True
        elif k == 47:
            self.shift = not self.shift
        elif k == 61:
            self.caps = not self.caps
        elif k in (62, 63, 64):
            self.type = NAMES[k - 60]
        elif k == 66:
            self.insert = not self.insert
        elif 101 <= k <= 105:
            self.typed = list(self.func[k - 101])
        elif k < 70:
            c = TYPED[2 * (NAMES.index(self.type) - 2) + (self.shift != self.caps)].get(k)
            if c:
                self.typed = list(W(c))
                self.shift = False

    def query(self):
        k = self.now
        return [k if 1 <= k <= 68 else 0, k - 100 if 101 <= k <= 105 else 0, k - 90 if 90 <= k <= 93 and self.icons[k - 90] is not None else -1, self.page]

    # ---- statements
    def snap(self):
        keytext = [0] * 32
        for i, f in enumerate(self.func):
            t = (list(f) + list(W(b" ")) * 5)[:5]
            if len(f) > 4:
                t[4] = W(b".")[0]
            keytext[1 + 6 * i:6 + 6 * i] = t
        return {"func": [tuple(f) for f in self.func], "icons": list(self.icons), "text": sum(self.text, []), "col": sum(self.col, []), "keytext": keytext,
                "type": self.type, "shift": (self.shift, self.caps), "insert": self.insert, "pages": (self.use, self.pmax, self.page), "pagekeys": bool(self.use)}


def snap_of(r):
    k = r["keys"]
    return {"func": [uns(f) for f in r["func"]], "icons": [s[1] // 4 if s[0] else None for s in k[91:95]], "text": list(uns(r["text"])),
            "col": list(bytes.fromhex(r["tcol"])), "keytext": list(uns(r["keytext"]))[:32], "type": NAMES[r["type"]], "shift": (bool(r["shift"] & 1), bool(r["shift"] & 2)),
            "insert": bool(r["cursor"] & 1), "pages": (r["icon"][0] >> 12, r["icon"][1] >> 12, r["icon"][2] >> 12), "pagekeys": bool(k[89][0]) and bool(k[90][0])}


def fixed(r):
    """what no statement changes: the keyboard's own keys"""
    return [[s[1]] + s[2:] for s in r["keys"][:91]] + [s[2:] for s in r["keys"][91:]] + [uns(r["keytext"])[32:] != (0,) * (23 * 32)]


def num(rng, v):
    return str(v) if rng.random() < .85 or v < 0 else "%d.%s" % (v, rng.choice(["5", "25", "75"]))


def text(rng, maxlen=255):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20, 31, 32, 33, 64, 200, 255])
    return rnd_text(rng, min(n, maxlen), rng.choice([b"ABCabc019 ", bytes(range(0x20, 0x7f)), bytes(range(0x20, 0x100)), bytes(range(1, 0x100))]))


def str_expr(rng, b):
    """expression of a text of any length (a line holds 100 characters: longer texts are put together before)"""
    pre, parts = [], []
    import C14
    if len(b) <= 16:
        return [], C14.lit_expr(rng, b)
    pre.append("Z$=\"\"")
    for i in range(0, len(b), 12):
        pre.append("Z$=Z$+" + C14.lit_expr(rng, b[i:i + 12]))
    return pre, "Z$"


def statement(rng, m, maxlen=255):
    """(lines before, statement, expected error); applied to the model"""
    k = rng.random()
    if k < .3:
        i = rng.randrange(1, 6) if rng.random() < .9 else rng.choice([0, 6, -1, 100000])
        b = text(rng, maxlen)
        pre, e = str_expr(rng, b)
        if rng.random() < .05:
            return pre, "KEY %s,%d" % (num(rng, i), 5), {E.TYPE_MISMATCH, E.TEST_COMMAND, E.OUT_OF_RANGE}
        if 1 <= i <= 5:
            m.func[i - 1] = W(b)
        return pre, "KEY %s,%s" % (num(rng, i), e), {0} if 1 <= i <= 5 else {E.OUT_OF_RANGE}
    if k < .45:
        i = rng.randrange(4) if rng.random() < .85 else rng.choice([4, 5, -1, 255])
        c = rng.choice([0, 1, 62, 63, rng.randrange(64)]) if rng.random() < .85 else rng.choice([65, -1, 66, 255, 256, 4095])
        ok = 0 <= i < 4 and 0 <= c < 64
        if ok:
            m.icons[i] = c
        return [], "ICONSET %s,%s" % (num(rng, i), num(rng, c)), {0} if ok else {E.OUT_OF_RANGE}
    if k < .55:
        if rng.random() < .3:
            m.icons = [None] * 4
            return [], "ICONCLR", {0}
        i = rng.randrange(4) if rng.random() < .85 else rng.choice([4, -1, 5, 90])
        if 0 <= i < 4:
            m.icons[i] = None
        return [], "ICONCLR %s" % num(rng, i), {0} if 0 <= i < 4 else {E.OUT_OF_RANGE}
    if k < .68:
        t = rng.choice(NAMES)
        if rng.random() < .15:
            t = rng.choice(["", "KY", "KYAA", "kya", "PN", "OFFF", "KYB", "K", "ON", " OFF", "OFF "])
            return [], "PNLTYPE \"%s\"" % t, {E.INVALID_ARGUMENT_VALUE}
        m.type = t
        if rng.random() < .2:
            return ["Z$=\"%s\"" % t], "PNLTYPE Z$", {0}
        return [], "PNLTYPE \"%s\"" % t, {0}
    if k < .7:
        m.text = [[0] * 32 for _ in range(24)]
        m.col = [[0] * 32 for _ in range(24)]
        return [], "CLS", {0}
    if k < .9:
        x = rng.choice([0, 31, 30, rng.randrange(32)]) if rng.random() < .9 else rng.choice([-1, 32, 100])
        y = rng.choice([0, 23, 22, rng.randrange(24)]) if rng.random() < .9 else rng.choice([-1, 24, 100])
        b = text(rng, maxlen)
        pre, e = str_expr(rng, b)
        c = None if rng.random() < .4 else rng.randrange(16) if rng.random() < .9 else rng.choice([16, -1, 255])
        inside = 0 <= x < 32 and 0 <= y < 24
        err = {0}
        if c is not None and not 0 <= c < 16:
            err = {E.OUT_OF_RANGE} if inside else {0, E.OUT_OF_RANGE}
        elif inside:
            for i, w in enumerate(W(b)[:32 - x]):
                m.text[y][x + i] = w
                m.col[y][x + i] = c or 0
        return pre, "PNLSTR %s,%s,%s%s" % (num(rng, x), num(rng, y), e, "" if c is None else "," + num(rng, c)), err
    if k < .94:
        v = rng.choice([0, 1, 1, 5, -1])
        m.use = int(v != 0)
        return [], "ICONPUSE=%d" % v, {0}
    if k < .97:
        v = rng.choice([0, 1, 3, 9, 3, -4])
        m.pmax = max(v, 0)
        return [], "ICONPMAX=%d" % v, {0}
    v = rng.choice([0, 1, 2, -1, 20])
    m.page = max(0, min(v, m.pmax))
    return [], "ICONPAGE=%d" % v, {0}


SPOTS = {}
for _y in range(192):
    for _x in range(256):
        SPOTS.setdefault(key_at(_x, _y), []).append((_x, _y))


def spot(rng, k=None):
    """a pixel of a key: often its border"""
    if k is None:
        k = rng.choice([rng.choice([0, 47, 61, 62, 63, 64, 65, 66, 60, 32, 80, 81, 90, 91, 92, 93, 101, 102, 103, 104, 105]), rng.randrange(2, 69), rng.randrange(2, 60), rng.randrange(2, 60)])
    if k not in SPOTS:
        k = 65
    s = SPOTS[k]
    return s[0] if rng.random() < .15 else s[-1] if rng.random() < .18 else rng.choice(s)


def history(rng):
    """[(touch, x, y, frames)]"""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = rng.random()
        x, y = spot(rng)
        if key_at(x, y) == 1:
            x, y = spot(rng, 65)
        if k < .6:
            out.append((1, x, y, rng.choice([1, 1, 1, 2, 3, 10])))
        elif k < .75:
            out.append((1, x, y, rng.choice([29, 30, 31, 32, 35, 36, 37, 40, 41, 60])))
        elif k < .9:  # slides to another place, perhaps back
            out.append((1, x, y, rng.choice([1, 2, 31])))
            x2, y2 = spot(rng) if rng.random() < .6 else (min(255, max(0, x + rng.choice([-8, 8, 1, -1]))), min(191, max(0, y + rng.choice([-8, 8, 0]))))
            if key_at(x2, y2) != 1:
                out.append((1, x2, y2, rng.choice([1, 2, 3, 35])))
                if rng.random() < .4:
                    out.append((1, x, y, rng.choice([1, 2, 36])))
        else:
            x, y = spot(rng, 0)
            out.append((1, x, y, rng.choice([1, 1, 40])))
            if rng.random() < .5:
                x, y = spot(rng)
                if key_at(x, y) != 1:
                    out.append((1, x, y, rng.choice([1, 2, 31])))
        if rng.random() < .92:
            out.append((0, 0, 0, rng.choice([1, 1, 2])))
    return out


ASK = direct("A=KEYBOARD:B=FUNCNO:C=ICONCHK():D=ICONPAGE\r")


def steps_case(rng, cid, wide):
    """statements and touches in turn"""
    m = Panel()
    acts, want = ["sys"], []
    for _ in range(rng.randint(4, 14)):
        if rng.random() < wide:
            pre, st, err = statement(rng, m)
            for p in pre:
                acts.append(direct(p + "\r"))
                want.append(("run", {0}, p))
            acts += [direct(st + "\r"), "panel"]
            want += [("run", err, st), ("panel", m.snap(), st)]
        else:
            for t, x, y, n in history(rng):
                acts.append("touch %d %d %d %d" % (t, x, y, n))
                typed = []
                for _ in range(n):
                    m.frame(t, x, y)
                    typed += m.typed
                # two calls of this kind may be needed to see a key that acts in the last frame
                acts += ["inkeys", ASK] + ["var " + v for v in "ABCD"]
                what = "touch %s at (%d,%d) for %d frames" % (("on", x, y, n) if t else ("off", x, y, n))
                want += [("inkeys", typed[:256], what), ("run", {0}, ASK), ("vars", m.query(), what)]
        if rng.random() < .5:
            acts.append("panel")
            want.append(("panel", m.snap(), "touches"))
    acts += [direct("R=0\r"), "pool"]
    return Case(cid, acts, ("steps", want, m))


LOOP = """N=0
DIM K[200],F[200],I[200],P[200],T$[200]
@L
VSYNC 1
K[N]=KEYBOARD:F[N]=FUNCNO:I[N]=ICONCHK():P[N]=ICONPAGE
S$=""
@D
K$=INKEY$():IF K$=="" THEN @E
S$=S$+K$
GOTO @D
@E
T$[N]=S$
N=N+1
IF N<%d GOTO @L
"""


def loop_case(rng, cid):
    """a program that reads the keyboard in every frame"""
    m = Panel()
    acts, want = ["sys"], []
    src = []
    for _ in range(rng.randint(0, 5)):
        pre, st, err = statement(rng, m, 40)
        if err == {0}:
            src += pre + [st]
    fr, want = [], []
    esc = rng.random() < .25
    while len(fr) < 70:
        for t, x, y, n in history(rng):
            fr += [(t, x, y)] * n
        if esc and rng.random() < .3:
            x, y = spot(rng, 1)
            fr += [(1, x, y)] * rng.choice([1, 2, 40]) + [(0, 0, 0)]
    fr = fr[:90]
    src += LOOP % len(fr) and [LOOP % len(fr)]
    for t, x, y in fr:
        m.frame(t, x, y)
        if m.brk:
            break
        want.append((m.query(), list(m.typed)))
    acts += ["frames %s 2" % ";".join("t%d.%d" % (x, y) if t else "," for t, x, y in fr), prg("\r".join(src).replace("\n", "\r"), 0), "var N"]
    acts += ["arr " + v for v in ("K", "F", "I", "P", "T$")] + ["panel", direct("R=0\r"), "pool"]
    return Case(cid, acts, ("loop", want, m, len(fr), src, fr))


def run():
    ck = Check("C24")
    ck.rule = "statements x touch histories (places, holds, slides, repeats); distinct = (statements, touches); counted per (key, keyboard type, shifted) that acted"
    rng = ck.rng
    binp = build("asan")
    cases = []
    # every key, type and shift state once
    n = 0
    for t in NAMES:
        for sh in (0, 1):
            for chunk in range(0, 110, 5):
                m = Panel()
                acts, want = ["sys", direct("PNLTYPE \"%s\":ICONPUSE=1:ICONPMAX=3\r" % t)], [("run", {0}, "PNLTYPE")]
                m.type, m.use, m.pmax = t, 1, 3
                for k in range(chunk, chunk + 5):
                    if k not in SPOTS or k == 1:
                        continue
                    for x, y in {SPOTS[k][0], SPOTS[k][-1], rng.choice(SPOTS[k])}:
                        for key in ([47] if sh and rng.random() < .5 else [61] if sh else []) + [None]:
                            px, py = (x, y) if key is None else spot(rng, key)
                            acts += ["touch 1 %d %d 1" % (px, py), "inkeys", ASK] + ["var " + v for v in "ABCD"] + ["touch 0 0 0 1"]
                            m.frame(1, px, py)
                            what = "touch at (%d,%d)" % (px, py)
                            want += [("inkeys", m.typed[:256], what), ("run", {0}, ASK), ("vars", m.query(), what)]
                            m.frame(0)
                acts.append("panel")
                want.append(("panel", m.snap(), "all keys"))
                cases.append(Case("a%d" % n, acts, ("steps", want, m)))
                n += 1
    for k in range(ck.n(700, 12000)):
        cases.append(steps_case(rng, "s%d" % k, rng.choice([.3, .6, .9])))
    for k in range(ck.n(300, 5000)):
        cases.append(loop_case(rng, "l%d" % k))
    res = run_cases(binp, cases, cpu=30)
    seen = set()
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        bad = (steps_judge if c.meta[0] == "steps" else loop_judge)(ck, c, r)
        seen |= c.meta[2].seen
        ck.case(tuple(c.acts))
        if bad:
            ck.violation(bad[0], bad[1], case_text(c)[:60000])
        elif c.meta[0] == "loop" and c.meta[1]:
            ck.sample("%d frames of touches: %r typed" % (len(c.meta[1]), "".join(chr(u) for _, t in c.meta[1] for u in t)[:40]))
    ck.count("keys_types_shifts", len(seen))
    return ck.finish(min_evals=500)


def differ(got, want):
    for f in want:
        if got[f] != want[f]:
            g, w = got[f], want[f]
            if isinstance(g, list):
                d = [(i, a, b) for i, (a, b) in enumerate(zip(g, w)) if a != b]
                return "%s: %d differ, first (index, is, expected) %s" % (f, len(d), d[:3])
            return "%s is %s, expected %s" % (f, g, w)
    return None


def steps_judge(ck, c, r):
    pos = {}

    def nxt(t):
        pos[t] = pos.get(t, -1) + 1
        return r.get(t, pos[t])
    base = None
    last = ""
    for w in c.meta[1]:
        if w[0] == "run":
            e = nxt("run")["err"]
            if e not in w[1]:
                return "error", "%s stopped with %s, expected %s (after %s)" % (w[2] if not w[2].startswith("direct") else "asking", E.name(e), "/".join(E.name(x) for x in w[1]), last)
            last = w[2] if not w[2].startswith("direct") else last
        elif w[0] == "inkeys":
            g = list(uns(nxt("inkeys")["v"]))
            ck.count("keys_typed", len(g))
            if g != list(w[1]):
                return "typed", "%s typed %r, expected %r" % (w[2], "".join(map(chr, g)), "".join(map(chr, w[1])))
        elif w[0] == "vars":
            g = [nxt("var")["v"] >> 12 for _ in range(4)]
            ck.count("touches")
            if g != w[1]:
                return "query", "%s: KEYBOARD, FUNCNO, ICONCHK(), ICONPAGE are %s, expected %s" % (w[2], g, w[1])
        else:
            s = nxt("panel")
            ck.count("panels_compared")
            d = differ(snap_of(s), w[1])
            if d:
                return "panel", "after %s: %s" % (w[2], d)
            if base is not None and fixed(s) != base:
                return "keys", "after %s the keyboard itself changed" % w[2]
            base = fixed(s)
    p = r.get("pool")
    if p and p["bad"]:
        return "pool", "strings are lost or shared: " + p["why"]
    return None


def loop_judge(ck, c, r):
    _, want, m, n, src, fr = c.meta
    e = r.get("run", 0)["err"]
    info = "\n" + "\n".join(src[:-1]) + "\n" + " ".join("%d,%d" % f[1:] if f[0] else "-" for f in fr)
    if e != (E.BREAK if m.brk else 0):
        return "error", "stopped with %s, expected %s" % (E.name(e), E.name(E.BREAK if m.brk else 0)) + info
    if m.brk:
        ck.count("breaks")
    got = r.get("var")["v"] >> 12
    if got != len(want) and not (m.brk and 0 <= len(want) - got <= 1):
        return "frames", "%d frames passed before the end, expected %d" % (got, len(want)) + info
    arr = [r.get("arr", i)["v"] for i in range(5)]
    for i in range(got):
        g = [a[i] >> 12 for a in arr[:4]]
        if g != want[i][0]:
            return "query", "frame %d: KEYBOARD, FUNCNO, ICONCHK(), ICONPAGE are %s, expected %s" % (i, g, want[i][0]) + info
        t = list(uns(arr[4][i]))
        if t != want[i][1]:
            return "typed", "frame %d typed %r, expected %r" % (i, "".join(map(chr, t)), "".join(map(chr, want[i][1]))) + info
        ck.count("frames_compared")
        ck.count("keys_typed", len(t))
    d = differ(snap_of(r.get("panel")), m.snap())
    if d:
        return "panel", d + info
    if r.get("pool")["bad"]:
        return "pool", "strings are lost or shared: " + r.get("pool")["why"] + info
    return None


if __name__ == "__main__":
    main(run, "C24")
