#!/usr/bin/env python3
"""C27: INPUT and LINPUT under frame scripts (typed keys, buttons, panel keys) judged by a line editor model: variables, echo of every frame, final console."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mini import *
import C14

UP, DOWN, LEFT, RIGHT, A, B_, X_, Y, L, R, START, SELECT = range(12)
PANEL = {"bs": (244, 60), "del": (222, 152), "ins": (206, 152), "enter": (240, 132), "Q": (40, 84), "1": (32, 60), "SP": (140, 152)}
CHARS = {"Q": W(b"Q")[0], "1": W(b"1")[0], "SP": W(b" ")[0], "enter": 13}
for _s in ("LR", "R"):          # with L or R held, the panel is shifted
    for _k, _c in (("Q", b"q"), ("SP", b" ")):
        CHARS[_s + "+" + _k] = W(_c)[0]
COMMA, DOT, MINUS, SPACE = W(b",.- ")


def field_num(f):
    """number of a field, None if it is not one"""
    s = bytes(WIDE.index(u) if u in WIDE else 1 for u in f).strip(b" ")
    if not re.fullmatch(rb"-?([0-9]+\.?[0-9]*|\.[0-9]+)", s):
        return None
    v = parse_prefix(s)
    return v if I32MIN <= v <= I32MAX else None


class Out(Exception):
    def __init__(self, err):
        self.err = err


class Sim:
    """the program's statements against the frame script; first: 'buttons' or 'keys' of one frame come first"""

    def __init__(self, frames, scr, first, idle):
        self.frames, self.scr, self.first = list(frames), scr, first
        self.pos, self.queue, self.log, self.insert, self.idle = 0, [], [], True, idle
        self.vars = {}
        self.stats = {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def frame(self):
        if self.pos < len(self.frames):
            f = self.frames[self.pos]
        else:
            self.idle -= 1
            if self.idle < 0:
                raise Out("idle")
            f = ([], None)
        self.pos += 1
        return f

    def edit(self):
        """one line"""
        sc = self.scr
        sc.t[sc.y] = [0] * C14.CW
        t, i = [], 0

        def put(k):
            nonlocal i
            if self.insert:
                if len(t) < C14.CW:
                    t.insert(i, k)
                    i += 1
                else:
                    self.stat("line_full")
            elif i < C14.CW:
                t[i:i + 1] = [k]
                i += 1
                self.stat("overwritten")

        def show():
            sc.t[sc.y] = t + [0] * (C14.CW - len(t))
            sc.c[sc.y] = [None] * C14.CW
            for j in range(len(t)):
                sc.c[sc.y][j] = sc.col
            sc.x = i
        while True:
            while self.queue:
                k = self.queue.pop(0)
                if k == 13:
                    show()
                    return t
                put(k)
                self.stat("typed")
            show()
            self.log.append((sc.x, sc.y, tuple(t)))
            keys, b = self.frame()
            keys = list(keys)
            if b in CHARS:
                keys.append(CHARS[b])
                b = None
            self.queue = (self.queue + keys)[:256]
            if b == "ins":
                self.insert = not self.insert
            if self.first == "keys":
                while self.queue:
                    k = self.queue.pop(0)
                    if k == 13:
                        show()
                        return t
                    put(k)
            if b in ("bs", "Y"):
                if i:
                    i -= 1
                    del t[i]
                self.stat("backspace")
            elif b == "del":
                if i < len(t):
                    del t[i]
                self.stat("delete")
            elif b == "LEFT":
                i -= i > 0
                self.stat("cursor")
            elif b == "RIGHT":
                i += i < len(t)
                self.stat("cursor")
            elif b == "SELECT":
                show()
                raise Out("break")
            elif b == "A":
                # the line ends here; what was typed later is for the next statement
                show()
                self.stat("ended_by_A")
                return t
    # the colours of cells without a character are not specified

    def prompt(self, p):
        sc = self.scr
        if p is not None:
            sc.out(p)
        sc.fix()
        sc.put(W(b"?")[0])
        if sc.x:
            sc.newline()
        sc.fix()

    def run(self, prog):
        for st in prog:
            if st[0] == "locate":
                self.scr.x, self.scr.y = st[1:]
            elif st[0] == "color":
                self.scr.col = st[1]
            elif st[0] == "print":
                self.scr.out(st[1])
                self.scr.newline()
            elif st[0] == "linput":
                self.prompt(st[1])
                t = self.edit()
                self.vars[st[2]] = tuple(t)
                self.scr.newline()
                self.stat("lines")
            else:
                self.prompt(st[1])
                while True:
                    t = self.edit()
                    f, cur = [], []
                    for u in t:
                        if u == COMMA:
                            f.append(cur)
                            cur = []
                        else:
                            cur.append(u)
                    f.append(cur)
                    ok = len(f) == len(st[2])
                    vals = []
                    for v, x in zip(st[2], f):
                        if v[-1:] == "$" or "$" in v:
                            vals.append(tuple(x))
                        else:
                            vals.append(field_num(x))
                            ok = ok and vals[-1] is not None
                    if ok:
                        break
                    self.stat("asked_again")
                    self.scr.newline()
                    self.scr.out(W(b"?Redo from start"))
                    self.scr.newline()
                    self.prompt(st[1])
                for v, x in zip(st[2], vals):
                    self.vars[v] = x
                self.scr.newline()
                self.stat("lines")


NV, SV = ["A", "B", "NUM", "N[1]", "N[0]"], ["A$", "B$", "TXT$", "T$[2]", "T$[0]"]


SCALARS = ["A", "B", "NUM", "A$", "B$", "TXT$", "P$"]


def program(rng):
    """[(statement, source)]"""
    out, src = [], ["DIM N[3]:DIM T$[3]", "A=7:A$=\"old\":N[1]=9:P$=\"say\""]
    if rng.random() < .3:
        src.append("PNLTYPE \"%s\"" % rng.choice(["OFF", "PNL", "KYM", "KYK", "KYA"]))
    src.append("CLS")
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.random()
        if k < .2:
            x, y = rng.choice([0, 31, 30, rng.randrange(32)]), rng.choice([0, 21, 22, 23, 23, rng.randrange(24)])
            out.append(("locate", x, y))
            src.append("LOCATE %d,%d" % (x, y))
        elif k < .3:
            c = rng.randrange(1, 16)
            out.append(("color", c))
            src.append("COLOR %d" % c)
        elif k < .4:
            t = rng.choice([b"hello", b"x" * 32, b"0123456789" * 6])
            out.append(("print", W(t)))
            src.append("PRINT \"%s\"" % t.decode())
        p = None
        ps = ""
        if rng.random() < .6:
            if rng.random() < .2:
                p, ps = W(b"say"), "P$;"
            elif rng.random() < .2:
                p, ps = W(b"say1"), "P$+\"1\";"
            else:
                b = rng.choice([b"", b"?", b"NAME", b"x" * 31, b"x" * 32, b"y" * 40, b"z" * 30])
                p, ps = W(b), "\"%s\";" % b.decode()
        if rng.random() < .45:
            v = rng.choice(SV + ["P$"] * (rng.random() < .3))
            out.append(("linput", p, v))
            src.append("LINPUT %s%s" % (ps, v))
        else:
            n = rng.choice([1, 1, 2, 2, 3, 4, 6])
            vs = [rng.choice(NV if rng.random() < .5 else SV) for _ in range(n)]
            out.append(("input", p, vs))
            src.append("INPUT %s%s" % (ps, ",".join(vs)))
        if out[-1][-1] == "P$":
            break
    return out, src


def number_text(rng):
    k = rng.random()
    if k < .6:
        return b"%d" % rng.choice([0, 1, 5, 42, 1234, 524287, rng.randrange(100000)])
    return rng.choice([b"-1", b"-524288", b"524288", b"-524289", b"1.5", b"-.25", b".5", b"1.", b"-0", b"007", b"4294967297", b"99999999999", b"0.00024", b"0.99999",
                       b"-", b".", b"", b"1-", b"--1", b"1.2.3", b"12A", b"&H1F", b"+5", b" 12", b"12 ", b" -3 ", b"  12", b"12  ", b"   7   ", b"8    ", b"  ", b" 5  x", b"- 5", b"1 . 5", b"-4   ", b"1 2", b"1e3", b"3.14159265"])


def line_text(rng, st):
    if st[0] == "linput":
        b = rnd_text(rng, rng.choice([0, 1, 3, 8, 20, 31, 32, 33, 40]), rng.choice([b"abcXYZ019 ,.-", bytes(range(0x20, 0x80)), bytes(range(0x20, 0x100))]))
        return b
    f = []
    for v in st[2]:
        if "$" in v:
            f.append(rnd_text(rng, rng.choice([0, 1, 2, 5, 9]), b"abcXYZ019 .-\""))
        elif rng.random() < .93:
            f.append(number_text(rng))
        else:
            f.append(rnd_text(rng, 2, b"ab1"))
    k = rng.random()
    if k < .06 and len(f) > 1:
        f.pop()
    elif k < .1:
        f.append(b"9")
    return b",".join(f)


def script(rng, prog):
    """frames: (keys typed, one button or panel key or None)"""
    fr = []
    for st in prog:
        if st[0] not in ("input", "linput"):
            continue
        for _ in range(rng.choice([1, 1, 1, 2])):
            keys = [k for k in W(line_text(rng, st)) if k]
            if rng.random() < .03:
                keys.insert(rng.randint(0, len(keys)), rng.choice([0x3042, 0x4e00, 0x266a]))
            style = rng.random()
            i = 0
            while i < len(keys):
                n = 1 if style < .4 else rng.choice([1, 2, 3, 7, 40])
                fr.append((keys[i:i + n], None))
                i += n
                if rng.random() < .05:
                    s = rng.choice(["LR", "R"])
                    fr += [([], s), ([], s + "+" + rng.choice(["Q", "Q", "SP"])), ([], s), ([], None), ([], None)]
                while rng.random() < (.35 if style < .7 else .02):
                    b = rng.choice(["LEFT", "LEFT", "RIGHT", "Y", "bs", "del", "ins", "Q", "1", "SP", "LR", None, "UP", "X"])
                    both = rng.random() < .12 and i < len(keys) and b not in ("Q", "1", "SP")
                    fr.append((keys[i:i + 1] if both else [], b))
                    if both:
                        i += 1
                    if rng.random() < .2 and b:
                        fr.append(([], "hold"))
                    fr.append(([], None))
            if rng.random() < .03:
                fr.append(([], "SELECT"))
                break
            k = rng.random()
            if k < .6:
                if fr and rng.random() < .4:
                    fr[-1] = (fr[-1][0] + [13], fr[-1][1]) if fr[-1][1] is None else fr[-1]
                    if fr[-1][0][-1:] != [13]:
                        fr.append(([13], None))
                else:
                    fr.append(([13], None))
                if rng.random() < .1:
                    fr[-1] = (fr[-1][0] + [W(b"5")[0]], None)
            else:
                e = rng.choice(["A", "A", "enter"])
                fr.append(([], e))
                if e == "A" and rng.random() < .3:  # held: only a new press ends the next line
                    fr += [([], "hold")] * rng.randint(1, 10)
                fr.append(([], None))
    return fr


BTN = {"LEFT": 1 << LEFT, "RIGHT": 1 << RIGHT, "A": 1 << A, "Y": 1 << Y, "LR": 1 << L, "R": 1 << R, "SELECT": 1 << SELECT, "UP": 1 << UP, "X": 1 << X_}


def encode(fr):
    out, last = [], None
    for keys, b in fr:
        b2 = last if b == "hold" else b
        last = b2
        s = "".join("k%04x" % k for k in keys)
        if b2 and "+" in b2:
            b3, t = b2.split("+")
            s += "t%d.%d,b%d" % (PANEL[t] + (BTN[b3],))
        elif b2 in PANEL:
            s += "t%d.%d" % PANEL[b2]
        elif b2:
            s += "b%d" % BTN[b2]
        out.append(s + ",")
    return ";".join(out)


def run():
    ck = Check("C27")
    ck.rule = "program of INPUT/LINPUT statements x frame script (typed keys, editing buttons, panel keys, holds, same-frame combinations); distinct = (statements, resulting values, final screen)"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for k in range(ck.n(1800, 30000)):
        prog, src = program(rng)
        fr = script(rng, prog)
        # shift changes what panel letters type: only one of them per script
        if any(b == "LR" for _, b in fr):
            fr = [(q, None if b in ("Q", "1", "SP") else b) for q, b in fr]
        held = [i for i, (_, b) in enumerate(fr) if b and "+" in b]
        if held:
            h = rng.choice(held)
            fr = [(q, b if h - 1 <= i <= h + 1 else None if b in ("Q", "1", "SP", "LR", "R") or b and "+" in b else b) for i, (q, b) in enumerate(fr)]
        for i in range(len(fr) - 1):  # a panel key is released before the next one
            if fr[i][1] in PANEL and fr[i + 1][1] in PANEL or fr[i][1] not in (None, "hold") and fr[i][1] == fr[i + 1][1]:
                fr[i + 1] = (fr[i + 1][0], None)
        acts = ["sys", direct("\r".join(src[:2]) + "\r"), "frames %s 3" % (encode(fr) or "-"), direct("\r".join(src[2:]) + "\r"), "flog", "con", "panel"]
        acts += ["var " + v for v in SCALARS]
        for v in ("N", "T$"):
            acts.append("arr " + v)
        acts += [direct("R=0\r"), "pool"]
        cases.append(Case("i%d" % k, acts, (prog, src, fr)))
    res = run_cases(binp, cases, cpu=30)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        prog, src, fr = c.meta
        plain = [(q, None if b in ("hold", "LR", "R", "UP", "X") else b) for q, b in fr]
        base = {"A": 7 << 12, "A$": tuple(W(b"old")), "P$": tuple(W(b"say"))}
        fails = []
        for first in ("buttons", "keys"):
            scr = C14.Screen()
            m = Sim(plain, scr, first, 3)
            err = 0
            try:
                m.run(prog)
            except Out as e:
                err = {"break": E.BREAK, "idle": 9999}[e.err]
            fails.append(compare(m, err, r, base, scr, src))
            if fails[-1] is None:
                break
        for k2, n in m.stats.items():
            ck.count(k2, n)
        ck.count("frames_compared", len(m.log))
        if err:
            ck.count("ended_early")
        ck.case((tuple(src), tuple(sorted((k2, str(v)) for k2, v in m.vars.items())), scr.text()))
        if all(fails):
            key, text = fails[0]
            ck.violation(key, text + "\n" + "\n".join(src) + "\n" + " ".join("%s%s" % ("".join(chr(u) for u in q), "<%s>" % b if b else "") or "." for q, b in fr), case_text(c)[:60000])
            continue
        if m.stats.get("lines"):
            ck.sample(" : ".join(src[2:])[:100] + " -> " + str(len(m.vars)) + " variables")
    return ck.finish(min_evals=1000)


def compare(m, err, r, base, scr, src):
    run = r.get("run", 1)
    if run["err"] != err:
        return "error", "stopped with %s, expected %s" % (E.name(run["err"]), E.name(err))
    want = dict(base)
    want.update(m.vars)
    arr = {"N": r.get("arr", 0), "T$": r.get("arr", 1)}
    for v in NV + SV + ["P$"]:
        mm = re.fullmatch(r"(\w+\$?)\[(\d)\]", v)
        if mm:
            g = arr[mm.group(1)]["v"][int(mm.group(2))]
            w = want.get(v, 9 << 12 if v == "N[1]" else None)
        else:
            g = value_of(r, v)
            w = want.get(v)
        if "$" in v:
            g, w = uns(g) if g else (), tuple(w or ())
        else:
            g, w = g or 0, w or 0
        if g != w:
            return "value", "%s is %s, expected %s" % (v, show(g), show(w))
    for i in (1,):
        if "N" in arr and arr["N"]["v"][2] != 0 or uns(arr["T$"]["v"][1]):
            return "other", "an array element which no statement names was changed"
    log = r.get("flog")["v"]
    for i, (x, y, t) in enumerate(m.log):
        if i >= len(log):
            return "frames", "%d frames passed, expected %d" % (len(log), len(m.log))
        gx, gy, gt = log[i]
        if (gx, gy, uns(gt)) != (x, y, t):
            return "echo", "frame %d shows %s at (%d,%d), expected %s at (%d,%d)" % (i, show(uns(gt)), gx, gy, show(t), x, y)
    if len(log) != len(m.log):
        return "frames", "%d frames passed, expected %d" % (len(log), len(m.log))
    if r.get("pool")["bad"]:
        return "pool", "strings are lost or shared after the statements: " + r.get("pool")["why"]
    if not err:
        kept = (re.search(r'PNLTYPE "(\w+)"', "\n".join(src)) or [0, "KYA"])[1]
        now = ["OFF", "PNL", "KYA", "KYM", "KYK"][r.get("panel")["type"]]
        if now != kept:
            return "panel", "the panel is %s after the statements, it was %s before" % (now, kept)
        con = r.get("con")
        t = uns(con["text"])
        if t != scr.text():
            d = [(j % 32, j // 32, hex(t[j]), hex(scr.text()[j])) for j in range(768) if t[j] != scr.text()[j]]
            return "screen", "%d cells differ, first (x, y, shown, expected): %s" % (len(d), d[:3])
        col = bytes.fromhex(con["color"])
        d = [(j % 32, j // 32, col[j], w) for j, w in enumerate(scr.colors()) if w is not None and t[j] and col[j] & 15 != w & 15]
        if d:
            return "colour", "%d colours differ, first (x, y, shown, expected): %s" % (len(d), d[:3])
        if (con["x"], con["y"]) != (scr.x, scr.y):
            return "cursor", "cursor at (%d,%d), expected (%d,%d)" % (con["x"], con["y"], scr.x, scr.y)
    return None


def value_of(r, name):
    return r.get("var", SCALARS.index(name))["v"]


def show(v):
    return "".join(chr(u) for u in v).__repr__() if isinstance(v, tuple) else v / 4096


if __name__ == "__main__":
    main(run, "C27")
