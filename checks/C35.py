#!/usr/bin/env python3
"""C35: the PC program itself (main.c) on a software window: everything done at the window reaches the program once, in order; closing the window always ends it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mini import *
import C34

KANA = {WIDE[c]: c for c in range(0xa1, 0xe0) if WIDE[c] >> 8 == 0x30}
ALIEN = [0xe9, 0x3b1, 0x3042, 0x3093, 0x3000, 0x3004, 0x30f4, 0x30fd, 0x3100, 0x4e00, 0xac00, 0x1f600, 0xff21, 0x8, 0xd, 0x1b]
EVENTS = [1, 2, 3, 6, 7, 8, 9, 12, 13]        # resized, focus, key and mouse events: nothing a program sees
BREAK = "Program manually stopped"


def T(s):
    """an item which lasts until the console shows this text"""
    return "t" + "".join("%04x" % w for w in W(s.encode("latin-1")))


def lines(o):
    back = {w: c for c, w in enumerate(WIDE)}
    out = []
    for t in o["text"]:
        w = [int(t[i:i + 4], 16) for i in range(0, len(t), 4)]
        out.append("".join(chr(back.get(x, 63)) if x else " " for x in w).rstrip())
    return out


def config(rng):
    """two rows of key codes; every key of a row is another one"""
    rows = [rng.sample(range(0, 101), 13) for _ in range(2)]
    if rng.random() < .7:
        k = rng.choice([x for x in range(0, 101) if x not in rows[0] + rows[1]])
        rows[0][12] = rows[1][12] = k
    text = "\n".join(" ".join(map(str, r)) for r in rows) + "\n" + rng.choice(["", "\nnotes 1 2 3\n"])
    return rows, text


def case(cid, meta, cfg, items, src=None, inputs=None, prg="P"):
    acts = ["fs", "wfile resources/config.txt %s" % cfg.encode().hex()]
    if src is not None:
        acts.append("wfile programs/P.PTC %s" % C34.prgfile(src, "P").hex())
    if inputs is not None:
        acts.append("wfile inputs.txt %s" % (inputs.hex() or "00"))
    acts.append("front %s %s %s" % (prg if src is not None else "-", "inputs.txt" if inputs is not None else "-", ";".join(items)))
    return Case(cid, acts, meta)


def u(c):
    return "u%08x" % c


def ch(k, n=6):
    return [k] * n


# the program collects keys and shows how many there were and a sum over their order
COLLECT = 'CLS\r?"GO"\r@L\rK$=INKEY$()\rIF K$=="" GOTO @L\rC=C+1:H=(H*7+ASC(K$))%4093\rIF C<M THEN GOTO @L\r?"#";C;",";H;"#"\rGOTO @L\r'


def collected(codes):
    h = 0
    for c in codes:
        h = (h * 7 + c) % 4093
    return "#%d,%d#" % (len(codes), h)


def mode_item(rng, rows, mode):
    """a tap on the mode key, of one or several frames"""
    return "K%d" % rows[mode][12] + rng.choice(["", "f2", "f3", "f6"])


def typed(ck, i):
    rng = ck.rng
    rows, cfg = config(rng)
    items, codes, mode = [T("GO")], [], 0
    for _ in range(rng.randint(3, 25)):
        if rng.random() < .15:
            if rows[mode][12] != rows[1 - mode][12] and rows[mode][12] in rows[1 - mode][:12]:
                continue
            items += [mode_item(rng, rows, mode), "f1"]
            mode ^= 1
            continue
        ev = ""
        for _ in range(rng.choice([1, 1, 2, 3, 8])):
            k = rng.random()
            if k < .1:
                ev += "e%d," % rng.choice(EVENTS)
                continue
            if k < .2:
                ev += u(rng.choice(ALIEN))
            elif k < .6:
                c = rng.randrange(32, 127)
                ev += u(c)
                if mode == 0:
                    codes.append(c)
            else:
                w = rng.choice(sorted(KANA))
                ev += u(w)
                codes.append(KANA[w])
        items.append(ev)
    w = rng.choice(sorted(KANA))
    items.append(u(w))
    codes.append(KANA[w])
    want = collected(codes)
    items += [T(want), "f4o"]
    return case("typed%d" % i, ("typed", want, [want]), cfg, items, "M=%d\r" % len(codes) + COLLECT)


def fed(ck, i):
    rng = ck.rng
    rows, cfg = config(rng)
    n = rng.choice([1, 2, 20, 255, 256, 257, 300, 700, 700])
    few = rng.choice([None, None, [13], [13, 65], [10, 27, 8, 13], [0xff, 1], [0x80], [32], [1]])      # every place in the full queue gets each of a few characters
    b = bytes(rng.choice(few) if few else rng.choice([rng.randrange(1, 256), rng.randrange(0x80, 0x100), 0xff, 65]) for _ in range(n))
    want = collected(b)
    return case("fed%d" % i, ("fed", want, [want]), cfg, [T(want), "f4o"], "M=%d\r" % n + COLLECT, inputs=b)


BUTTONS = 'CLS\r?"GO"\rP=-1\r@L\rB=BUTTON()\rIF B!=P THEN P=B:C=C+1:?"<";B;">";C\rGOTO @L\r'


def buttons(ck, i):
    rng = ck.rng
    rows, cfg = config(rng)
    items, want, mode, c = [T("<0>1")], ["GO", "<0>1"], 0, 1
    last = 0
    for _ in range(rng.randint(2, 9)):
        if rng.random() < .3:
            if rows[mode][12] != rows[1 - mode][12] and rows[mode][12] in rows[1 - mode][:12]:
                continue       # the mode key is a button of the other mode
            if last:
                last, c = 0, c + 1
                want.append("<0>%d" % c)
                items.append(T("<0>%d" % c))
            items += [mode_item(rng, rows, mode), "f2"]
            mode ^= 1
        held = rng.sample(range(11), rng.choice([0, 1, 1, 2, 4]))
        other = rng.sample(range(0, 101), 3)
        keys = [rows[mode][k] for k in held] + [k for k in other if k not in rows[mode][11:]][:2]
        mask = 0
        for b in range(11):
            mask |= (rows[mode][b] in keys) << b
        ks = "".join("K%d," % k for k in keys)
        if mask == last:
            items.append(ks + "f20")
            continue
        last, c = mask, c + 1
        want.append("<%d>%d" % (mask, c))
        items.append(ks + T(want[-1]))
    if rng.random() < .5:
        if last:
            c += 1
            want.append("<0>%d" % c)
            items.append(T(want[-1]))
        want.append("<2048>")      # SELECT is a button and a break
        items += ["K%d," % rows[mode][11] + T(BREAK), "f4"]
    else:
        items.append((ks if last else "") + "f3")
    items[-1] += "o"
    return case("buttons%d" % i, ("buttons", want), cfg, items, BUTTONS)


TOUCH = ('PNLTYPE "OFF":CLS\r?"GO"\r@L\rT=TCHST:X=TCHX:Y=TCHY\rIF T!=TCHST OR X!=TCHX OR Y!=TCHY THEN @L\r'
         'IF T==PT AND X==PX AND Y==PY THEN @L\rPT=T:PX=X:PY=Y:C=C+1:?"<";T;",";X;",";Y;">";C\rGOTO @L\r')


def touched(ck, i):
    rng = ck.rng
    rows, cfg = config(rng)
    w, h = 512, 768
    items, want, st, c = [T("GO")], ["GO"], (0, 0, 0), 0
    for _ in range(rng.randint(3, 12)):
        it = ""
        if rng.random() < .35:
            w, h = rng.choice([(512, 768), (256, 384), (1024, 1536), (rng.randint(1, 1500), rng.randint(1, 1500)), (rng.randint(0, 40), rng.randint(0, 40)), (800, 601)])
            it = "w%d,%d," % (w, h)
        half = h // 2
        k = rng.random()
        if k < .6 and w and half:
            x, y = rng.choice([0, w - 1, rng.randrange(w)]), rng.choice([half, h - 1, rng.randrange(half, h)])
        elif k < .8:
            x, y = rng.randrange(max(w, 1)), rng.randrange(max(half, 1)) - rng.choice([0, 0, 30])
        else:
            x, y = rng.choice([-1, -50, w, w + 7]), rng.choice([half, h - 1, h, h + 50])
        p = rng.choice([1, 1, 1, 0, 2])
        inside = w and half and half <= y and 0 <= x < w
        tx, ty = (256 * x // w, 192 * y // half - 192) if inside else (-1, -1)
        inside = inside and ty < 192
        it += "m%d,%d,%d," % (x, y, p)
        new = (1, tx, ty) if inside and p & 1 else (0,) + st[1:]
        if new == st:
            items.append(it + "f25")
            continue
        st, c = new, c + 1
        want.append("<%d,%d,%d>%d" % (st + (c,)))
        items.append(it + T(want[-1]))
    items.append((it if st[0] else "") + "f3o")
    if len(want) > 22:
        return touched(ck, i)
    return case("touched%d" % i, ("touched", want), cfg, items, TOUCH)


def framed(ck, i):
    """every frame is one step of the clock, the sprites and the backgrounds"""
    rng = ck.rng
    rows, cfg = config(rng)
    a, b, n = rng.randint(1, 200), rng.randint(1, 200), rng.choice([128, 256, 512])
    items = [T("GO"), "f%do" % rng.randint(2, 9), "f%do" % rng.randint(10, 60)]
    for _ in range(rng.randint(1, 3)):      # whatever is done at the window in the meantime
        items.append("".join(rng.choice(["K%d," % rows[0][rng.randrange(11)], u(rng.randrange(33, 127)) + ",", "m%d,%d,1," % (rng.randrange(512), rng.randrange(384, 768)), ""]) for _ in range(2))
                     + "f%do" % rng.randint(10, 40))
    src = 'SPPAGE 0:SPSET 0,0,0,0,0,0\rSPOFS 0,0,0:BGPAGE 0:BGOFS 0,0,0\rSPOFS 0,%d,0,%d\rBGOFS 0,%d,0,%d\rCLS:?"GO"\r@L\rGOTO @L\r' % (a, n, b, n)
    return case("framed%d" % i, ("framed", a, b, n), cfg, items, src)


PROMPTS = [("?1+2*3", "7"), ('A$="AB":?A$+A$', "ABAB"), ('?"NO";"NE"', "NONE"), ('?LEN("ABC")', "3"), ("B=5:?B%3", "2"), ('?ASC("\xb1")', "177"), ('?"\xb1\xdd"+"Z"', "\xb1\xddZ")]


def prompted(ck, i):
    rng = ck.rng
    rows, cfg = config(rng)
    items, want = [T("READY")], []
    for k, (text, res) in enumerate(rng.sample(PROMPTS, rng.randint(1, 3))):
        text += ":?1000-%d" % (k + 1)      # 32 characters at most
        done = str(999 - k)
        items += [u(WIDE[ord(c)] if ord(c) >= 0xa1 else ord(c)) for c in text]
        items += [T(text), "K%d,d" % rows[0][4], "f1d", T(done)]
        want += ["?", text, res, done, "OK"]
    items += [u(ord("#")) + "f1", T("#") + ",o"]     # shown by the next prompt
    return case("prompted%d" % i, ("prompted", want + ["?", "#"]), cfg, items)


ENDLESS = [None, "@L\rGOTO @L\r", "@L\rINPUT A\rGOTO @L\r", "@L\rLINPUT A$\rGOTO @L\r", "@L\rWAIT 1000\rGOTO @L\r", "A=1/0\r", "A=1\r", "@L\rACLS\rGOTO @L\r",
           "@L\rACLS:WAIT 1\rGOTO @L\r", "@L\rVSYNC 1\rGOTO @L\r", "A=1\r" * 60000, "INPUT \"A\";A,B$\r", "FOR I=0 TO 1 STEP 0\rNEXT\r", "@L\rK$=INKEY$()\rGOSUB @S\rGOTO @L\r@S\rRETURN\r",
           "@L\rCLS:?RND(9):GCLS:GFILL 0,0,255,191,3\rGOTO @L\r", "@L\rPNLTYPE \"KYA\":PNLTYPE \"OFF\"\rGOTO @L\r", "@L\rWAIT 1:GPUTCHR 0,0,\"BGF0\",1,2,3\rGOTO @L\r", "", "@L\rBEEP:RSORT 0,0,A\rGOTO @L\r"]


def closed(ck, i):
    rng = ck.rng
    rows, cfg = config(rng)
    src = ENDLESS[i % len(ENDLESS)]
    f = rng.choice([0, 0, 1, 2, 3, 5, 9, 30, 100])
    items = ["f%d" % f] if f else []
    if rng.random() < .5:
        for _ in range(rng.randint(1, 6)):
            items.append(rng.choice([u(rng.randrange(33, 127)), "K%d" % rng.choice(rows[0][:12]), "m%d,%d,1" % (rng.randrange(512), rng.randrange(384, 768)), "K%d" % rows[0][4], "K%d" % rows[0][11]]))
    if rng.random() < .5:
        items.append("x" + rng.choice(["", u(65), "K%d" % rows[0][11], "m100,700,1", "K%d" % rows[0][4]]))
    return case("closed%d" % i, ("closed", f), cfg, items or ["x"], src, prg=rng.choice(["P"] * 9 + ["NOFILE"]))


def judge(ck, c, r, report=True):
    """True when the case shows a violation"""
    kind = c.meta[0]

    def bad(key, text):
        if report:
            ck.violation(kind + "-" + key, text, case_text(c))
        return True
    if classify(r):
        if report:
            ck.crash(r, c)
        return True
    o = r.get("front")
    if not o:
        return bad("noend", "the program ended without returning from main")
    if o["hang"] == 1:
        return bad("hang", "the program still runs 20 s after its window was closed (%s)" % (c.meta,))
    if o["hang"]:
        return bad("frozen", "no frame was shown for a long time (%s)" % (c.meta,))
    if o["ret"] or o["leak"]:
        return bad("end", "exit status %d, window objects left %d" % (o["ret"], o["leak"]))
    rec = r.all("o")
    for x in rec:
        if x["time"] != x["frame"]:
            return bad("clock", "after %d frames MAINCNTL is %d" % (x["frame"], x["time"]))
    got = lines(rec[-1]) if rec else []
    while got and not got[-1]:
        got.pop()
    if kind in ("typed", "fed"):
        if got != ["GO"] + c.meta[2]:
            return bad("keys", "INKEY$ should collect %s (count,sum); the screen shows %r" % (c.meta[1], got))
    elif kind in ("buttons", "touched"):
        want = list(c.meta[1])
        if want[-1] == "<2048>":
            want.pop()
            # the stop may come before or after the program sees the button
            g = [l for l in got if not l.startswith("<2048>")]
            ok = g[:len(want)] == want and g[len(want):] == [BREAK, "?"]
        else:
            ok = got == want
        if not ok:
            return bad("states", "the program should see %r; the screen shows %r" % (c.meta[1], got))
    elif kind == "framed":
        _, a, b, n = c.meta
        for p, q in zip(rec, rec[1:]):
            d = q["frame"] - p["frame"]
            if q["frame"] - rec[0]["frame"] > n - 40:
                break
            for what, to in (("spr", a), ("bg", b)):
                moved, step = q[what] - p[what], to * 4096 / n
                if abs(moved - d * step) > step * .5 + 4:
                    return bad("steps", "%s moved by %s in %d frames instead of %s" % (what, moved / 4096, d, d * step / 4096))
    elif kind == "prompted":
        g = got[2:]
        if g != c.meta[1]:
            return bad("prompt", "the screen should go on with %r; it shows %r" % (c.meta[1], g))
    if o["stuck"] >= 0:
        return bad("stuck", "step %d never came (%s); the screen shows %r" % (o["stuck"], c.meta, got))
    if report:
        ck.case((kind, tuple(c.acts)))
        ck.count(kind + " sessions")
        ck.count("frames", o["frames"])
    return False


def main():
    ck = Check("C35")
    ck.rule = "one session = main() with one script of window events; distinct = distinct scripts and programs"
    binp = build("asan", "front.c")
    n, found = ck.n(1, 25), 0
    for rnd in range(n):
        cases = []
        for f, k in ((typed, 60), (fed, 50), (buttons, 60), (touched, 60), (framed, 20), (prompted, 30), (closed, 20 * len(ENDLESS))):
            cases += [f(ck, rnd * 1000 + i) for i in range(k)]
        for part in [cases[j::6] for j in range(6)]:      # some of every kind
            if found >= 3:
                break              # enough to report; sessions that wait in vain add only time
            res = run_cases(binp, part, cpu=60, wall=120)
            for c in part:
                r = res[c.id]
                if judge(ck, c, r, report=False):
                    # a busy machine can let a wait run out: only what happens again alone counts,
                    # or what no slowness explains
                    o = r.get("front")
                    slow = not classify(r) and o and (o["stuck"] >= 0 or o["hang"] == 2)
                    if slow:
                        if found >= 3:
                            continue
                        ck.count("sessions run again")
                        r = run_cases(binp, [c], cpu=60, wall=120)[c.id]
                    found += 1 if judge(ck, c, r) else 0
                else:
                    judge(ck, c, r)
    for c in cases[:3]:
        ck.sample(str(c.meta))
    return ck.finish(min_evals=300)


if __name__ == "__main__":
    sys.exit(main())
