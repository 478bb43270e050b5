#!/usr/bin/env python3
"""C34: the interactive system (prompt, RUN, autostart, break) under typed sessions judged by a session model: screen, variables, each line run exactly once."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mini import *
import C14
import C20 as F

SUBX = 43
MSG = {0: "OK", E.DIVIDE_BY_ZERO: "Division by zero!", E.NEXT_WITHOUT_FOR: "Can't find a matching FOR for this NEXT", E.RETURN_WITHOUT_GOSUB: "RETURN without GOSUB",
       E.LABEL_NOT_FOUND: "Label not found", E.OUT_OF_DATA: "Out of DATA", E.BREAK: "Program manually stopped", E.OUT_OF_RANGE: "Argument out of range!",
       E.FILE_LOAD_FAILED: "Failed to load file", E.SHUTDOWN: "Shutdown started", SUBX: "Subscript out of range [X]", E.ILLEGAL_FUNCTION_CALL: "Illegal function call"}


class Session:
    """the model: variables, program memory, screen"""

    def __init__(self):
        self.s = C14.Screen()
        self.v = {"A": 1 << 12, "B": 0, "D": 0, "E": 0}
        self.v = dict.fromkeys("ABDE", 0)
        self.prg = None          # None: not to be run (the editor's text), "": empty
        self.files = {}
        self.kinds, self.defer = set(), []

    def line(self, text):
        self.s.out(W(text.encode("latin-1")))
        self.s.newline()

    def num(self, n):
        return str(n)

    def result(self, err):
        self.line(MSG[err])

    def prompt(self):
        s = self.s
        s.fix()
        s.put(W(b"?")[0])
        if s.x:
            s.newline()
        s.fix()

    def typed(self, text):
        s = self.s
        w = list(W(text.encode("latin-1")))
        s.t[s.y] = w + [0] * (C14.CW - len(w))
        s.x = len(w)
        s.newline()


class Prog:
    """statement pieces with their effect on a session; each returns an error or 0"""

    def __init__(self, pieces, direct):
        self.p, self.direct = pieces, direct

    def text(self):
        return (":" if self.direct else "\r").join(t for t, f in self.p) + ("" if self.direct else "\r")

    def run(self, m):
        for t, f in self.p:
            r = f(m)
            if r == "end":
                return 0
            if r:
                return r
        return 0


def piece(rng, direct):
    """one statement"""
    k = rng.randrange(12)
    x, y = rng.choice("AB"), rng.choice("AB")
    n = rng.randint(0, 99)

    def setv(name, fn):
        def f(m):
            r = fn(m)
            if abs(r) > 40000:
                return E.OVERFLOW
            m.v[name] = r
            return 0
        return f
    if k < 2:
        return "%s=%d" % (x, n), setv(x, lambda m: n)
    if k < 4:
        return "%s=%s+%d" % (x, y, n), setv(x, lambda m: m.v[y] + n)
    if k == 4:
        return "%s=%s-%s" % (x, y, x), setv(x, lambda m: m.v[y] - m.v[x])
    if k < 7:
        return "?%s" % x, lambda m: m.line(m.num(m.v[x]))
    if k == 7:
        t = "".join(rng.choice("ABCXYZ 09") for _ in range(rng.randint(1, 6)))
        return '?"%s"' % t, lambda m: m.line(t)
    if k == 8:
        return '?"%s";%s' % ("V", x), lambda m: m.line("V" + m.num(m.v[x]))
    if k == 9:
        n = rng.randint(33, 70)
        return '?"*"*%d' % n, lambda m: m.line("*" * n)
    if k == 10:
        return "SWAP A,B", lambda m: m.v.update(A=m.v["B"], B=m.v["A"])
    c = rng.randint(1, 4)

    def loop(m):
        for i in range(1, c + 1):
            m.v["E"] = i
            m.v[x] += i
        m.v["E"] = c + 1
    return "FOR E=1 TO %d:%s=%s+E:NEXT" % (c, x, x), loop


def failing(rng):
    k = rng.randrange(7)
    if k == 0:
        return "?%s/0" % rng.choice("AB"), lambda m: E.DIVIDE_BY_ZERO
    if k == 1:
        return "NEXT", lambda m: E.NEXT_WITHOUT_FOR
    if k == 2:
        return "RETURN", lambda m: E.RETURN_WITHOUT_GOSUB
    if k == 3:
        return "READ A", lambda m: E.OUT_OF_DATA
    if k == 4:
        return "BGPAGE 9", lambda m: E.OUT_OF_RANGE
    if k == 5:
        return "Q[11]=1", lambda m: SUBX
    return 'LOAD"GRP9:X"', lambda m: E.ILLEGAL_FUNCTION_CALL


def count(m):
    m.v["D"] += 1


def program(rng):
    """a program file: effect on the session"""
    p = [("D=D+1", count)]
    for _ in range(rng.randint(0, 5)):
        p.append(piece(rng, False))
    k = rng.randrange(6)
    if k == 0:
        p.append(failing(rng))
        p.append(("A=999", lambda m: m.v.update(A=999)))
    elif k == 1:      # ends inside a subroutine and a loop
        p.append(("GOSUB @S", lambda m: 0))
        p.append(("@S", lambda m: 0))
        p.append(("FOR E=5 TO 9", lambda m: m.v.update(E=5)))
        p.append(rng.choice([("END", lambda m: "end"), ("?1/0", lambda m: E.DIVIDE_BY_ZERO)]))
    elif k == 2:
        p.append(("END", lambda m: "end"))
        p.append(("A=999", lambda m: 0))
    elif k == 3:
        p.append(("@L", lambda m: 0))
        p.append(("WAIT 1", lambda m: 0))
        p.append(("GOTO @L", lambda m: E.BREAK))
    elif k == 4:
        a, b = rng.randint(0, 9), rng.randint(0, 9)
        p.append(("READ A,B", lambda m: m.v.update(A=a, B=b)))
        p.append(("DATA %d,%d" % (a, b), lambda m: 0))
    return Prog(p, False)


def prgfile(text, name):
    t = text.encode("latin-1")
    body = struct.pack("<III", 0, 0, len(t)) + t
    return F.px01(name, "prg", body)


def keys(text):
    return "".join("k%04x" % W(c.encode("latin-1"))[0] for c in text)


def session(ck, i):
    rng = ck.rng
    m = Session()
    m.prg = ""
    m.files = {n: program(rng) for n in rng.sample(["P", "Q1", "LONGNAME", "Z_9"], rng.choice([1, 2, 3]))}
    acts = ["fs"]
    names = list(m.files)
    for n in names:
        acts.append("wfile programs/%s.PTC %s" % (n, prgfile(m.files[n].text(), n).hex()))
    if rng.random() < .4:
        acts.append("wfile programs/EDITOR.PTC %s" % prgfile(rng.choice(["?\"EDITOR\"\rD=D+100\r", "LABEL L\rGOTO L\r", "@A\rA=.5:GOTO @A\r"]), "EDITOR").hex())
        m.prg = None
    script = []
    log = []

    def running(r):
        """frames until the thing started last is over"""
        if r == E.BREAK:
            b = [""] * rng.randint(2, 6) + ["b2048", ""]
            if rng.random() < .4:      # the next line is typed before the stop
                m.defer = b
            else:
                script.extend(b)

    def flush():
        script.extend(m.defer)
        m.defer = []
    m.line("Small BASIC Computer            READY")
    start = rng.random()
    auto = "-"
    if start < .25:
        auto = rng.choice(names + ["NOFILE"])
        log.append("start " + auto)
        if auto == "NOFILE":
            m.result(E.FILE_LOAD_FAILED)
        else:
            m.result(0)      # loaded
            m.prg = m.files[auto]
            r = m.prg.run(m)
            running(r)
            m.result(r)
    n = rng.randint(3, 14)
    for _ in range(n):
        k = rng.random()
        enter = "k000d"
        r = 0
        if k < .08:           # nothing but Enter
            text, eff = "", None
        elif k < .16 and not m.defer:         # stopped at the prompt: nothing runs
            m.prompt()
            script.extend(["", "b2048", "", ""])
            m.result(E.BREAK)
            m.kinds.add("stopped prompt")
            log.append("SELECT")
            continue
        elif k < .20 and not m.defer:         # stopped in the middle of typing; the screen is then cleared
            m.prompt()
            script.extend([keys(("D=D+1:A=" + "1" * 40)[:rng.choice([rng.randint(1, 30), 8, 31, 32, 33, 45])]), "b2048", "", ""])
            script.append(keys("CLS") + "k000d")
            m.s.cls()
            m.result(0)
            m.kinds.add("stopped typing")
            log.append("SELECT in text")
            continue
        elif k < .45:
            p = [piece(rng, True) for _ in range(rng.choice([1, 1, 2, 3]))] + [("D=D+1", count)]
            rng.shuffle(p)
            pr = Prog(p, True)
            while len(pr.text()) > 31:
                pr.p.pop(0 if pr.p[0][0] != "D=D+1" else 1)
            text, eff = pr.text(), pr.run
        elif k < .58:
            p = [("D=D+1", count), failing(rng), ("A=777", lambda m: m.v.update(A=777))]
            pr = Prog(p, True)
            text, eff = pr.text(), pr.run
        elif k < .63:
            text, eff = "D=D+1:GOTO @NOWHERE", lambda m: (count(m), E.LABEL_NOT_FOUND)[1]
        elif k < .69:
            x = rng.choice("AB")
            text = "D=D+1:FOR E=0 TO 1 STEP 0:WAIT 1:NEXT"[:31]
            text = "FOR E=0 TO 1 STEP 0:WAIT 1:NEXT"
            eff = lambda m: (m.v.update(E=0), E.BREAK)[1]
        elif k < .73:
            text, eff = "CLS", lambda m: m.s.cls()
        elif k < .77:
            c = rng.randrange(1, 16)
            text, eff = "COLOR %d" % c, lambda m: setattr(m.s, "col", c)
        elif k < .80:
            text, eff = "CLEAR", lambda m: m.v.update(dict.fromkeys("ABDE", 0))
        elif k < .83:
            text, eff = "NEW", lambda m: setattr(m, "prg", "")
        elif k < .90:
            f = rng.choice(names)
            text, eff = 'LOAD"%s",0' % f, lambda m: setattr(m, "prg", m.files[f])
        elif k < .96:
            f = rng.choice(names)

            def eff(m):
                m.prg = m.files[f]
                return m.prg.run(m)
            text = 'EXEC"%s"' % f
        else:
            if m.prg is None:
                continue
            text, eff = "RUN", lambda m: m.prg.run(m) if m.prg else 0
        if rng.random() < .05 and m.prg is not None:
            text, eff = "RUN", lambda m: m.prg.run(m) if m.prg else 0
        m.prompt()
        m.typed(text)
        if m.defer:
            script.extend(["", "", keys(text) + enter])
            flush()
            m.kinds.add("line typed ahead")
        elif rng.random() < .3 and len(text) < 30:    # typed over several frames
            script.extend(keys(c) for c in text)
            script.append(enter)
        elif rng.random() < .2:
            script.append(keys(text))
            script.extend(["", "b16", "", ""])      # Enter with the A button
        else:
            script.append(keys(text) + enter)
        r = eff(m) if eff else 0
        if not isinstance(r, int):
            r = 0
        if any(abs(v) > 40000 for v in m.v.values()):
            return session(ck, i)
        running(r)
        if r == E.LABEL_NOT_FOUND:
            m.line(MSG[r] + m.info)
        else:
            m.result(r)
        log.append(text)
        m.kinds.add(text.split('"')[0].split(" ")[0].split("=")[0] if text else "empty")
    flush()
    m.prompt()
    m.result(E.SHUTDOWN)
    acts += ["sys", "frames %s %d" % (";".join(script) or "-", 40), "shell %s 8000" % auto, "con"] + ["var %s" % v for v in m.v]
    return Case("s%d" % i, acts, (m, log))


Session.info = "NOWHERE"


def judge(ck, c, r):
    if ck.crash(r, c):
        return
    m, log = c.meta
    sh = r.get("shell")
    if not sh or sh["ret"] != E.SHUTDOWN or sh["left"]:
        ck.violation("end", "the session did not end as expected: %s; typed %s" % (sh, log), case_text(c))
        return
    con = r.get("con")
    got = [int(con["text"][j:j + 4], 16) for j in range(0, len(con["text"]), 4)]
    want = [w for row in m.s.t for w in row]
    if got != want:
        y = next(j for j in range(768) if got[j] != want[j]) // 32
        show = lambda l: "|".join("".join(chr(w - 0xfee0 if 0xff00 < w < 0xff60 else w or 32) for w in l[32 * k:32 * k + 32]).rstrip() for k in range(24))
        ck.violation("screen", "row %d differs after %s\n  shown:    %s\n  expected: %s" % (y, log, show(got), show(want)), case_text(c))
        return
    for v, x in m.v.items():
        o = next((o for o in r.all("var") if o["n"] == v), None)
        if not o or o["v"] != x << 12:
            ck.violation("variable", "%s is %s instead of %d after %s" % (v, o and o["v"] / 4096, x, log), case_text(c))
            return
    ck.case(tuple(log))
    ck.count("lines entered", len(log))
    ck.count("screens scrolled", m.s.scrolled)
    for k in m.kinds:
        ck.count("sessions with " + k)


LOOPS = ["@L:A[0,1]=A[1,0]:A[1,1]=A[0,0]:GOTO @L\r",
         "@L:B[0]=B[1]+B[2]:C=MID$(\"AB\",0,1)==\"A\":GOTO @L\r",
         "FOR I=0 TO 1E5:B[I%3]=B[(I+1)%3]:NEXT:GOSUB @S:END\r@S:X=X+1:A[0,0]=RND(9):GOTO @S\r",
         "@L:IF B[1]==0 THEN B[2]=INSTR(\"ABC\",\"C\"):GOTO @L ELSE SWAP B[1],B[2]:GOTO @L\r"]


def stopped(ck, i):
    """A program stopped between any two instructions, then lines at the prompt."""
    rng = ck.rng
    src = "DIM A[2,2],B[3]\r" + rng.choice(LOOPS)
    lines, want = [], {}
    for j in range(rng.randint(1, 3)):
        v = rng.choice("DEFG")
        form = rng.randrange(4)
        k = rng.randint(1, 99)
        if form == 0:
            lines.append("%s=%d" % (v, k))
        elif form == 1:
            lines.append("FOR %s=0 TO %d:NEXT" % (v, k - 1))
        elif form == 2:
            lines.append("%s=ABS(-%d)" % (v, k))
        else:
            lines.append("IF %d THEN %s=%d" % (k, v, k))
        want[v] = k
    acts = ["sys", prg(src, 0, rng.randint(1, 12)), "direct " + hx("A[0,0]=0\r") if rng.random() < .1 else "inv"]
    acts += ["direct " + hx(l + "\r") for l in lines] + ["var %s" % v for v in want]
    return Case("t%d" % i, acts, (src, lines, want))


def judge_stopped(ck, c, r):
    if ck.crash(r, c):
        return
    src, lines, want = c.meta
    if r.get("run")["err"] != 9999:
        ck.violation("stop", "an endless program ended by itself: %s\n%s" % (r.get("run"), src), case_text(c))
        return
    for v, k in want.items():
        o = next((o for o in r.all("var") if o["n"] == v), None)
        if not o or o["v"] != k << 12:
            ck.violation("stopped", "%s is %s instead of %d after stopping a program and entering %s\n%s" % (v, o and o["v"] / 4096, k, lines, src), case_text(c))
            return
    ck.count("programs stopped half-way")


def main():
    ck = Check("C34")
    ck.rule = "one session = typed lines, buttons and files; distinct = distinct sequence of lines; whole screen and variables compared at its end"
    binp = build("asan")
    n = ck.n(1500, 30000)
    for base in range(0, n, 3000):
        cases = [session(ck, i) for i in range(base, min(n, base + 3000))]
        res = run_cases(binp, cases, cpu=60, wall=200)
        for c in cases:
            judge(ck, c, res[c.id])
    n = ck.n(600, 6000)
    for base in range(0, n, 3000):
        tcases = [stopped(ck, i) for i in range(base, min(n, base + 3000))]
        res = run_cases(binp, tcases, cpu=60, wall=200)
        for c in tcases:
            judge_stopped(ck, c, res[c.id])
    for c in cases[:2]:
        ck.sample(str(c.meta[1]))
    return ck.finish(min_evals=500)


if __name__ == "__main__":
    sys.exit(main())
