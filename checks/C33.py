#!/usr/bin/env python3
"""C33: every dot the PC display draws (onto a software CSFML) against the state of the console, sprites, backgrounds, graphics and panel."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import C20 as F

TYPES = ["OFF", "PNL", "KYA", "KYM", "KYK"]


class Gen:
    def __init__(self, rng):
        self.rng, self.visible, self.have = rng, 63, [set(), set()]
        self.sppage = 0

    def st(self, k=None):
        """-> (statement, VISIBLE flags after it)"""
        r = self.rng
        k = k or r.choice(["PRINT", "PRINT", "COLOR", "LOCATE", "CLS", "SPSET", "SPSET", "SPSET", "SPOFS", "SPOFS", "SPANGLE", "SPSCALE", "SPHOME", "SPCHR", "SPCLR",
                      "SPANIM", "SPPAGE", "SPPAGE", "BGPAGE", "BGPUT", "BGFILL", "BGOFS", "BGOFS", "BGOFS", "BGCLR", "BGCOPY", "GPAGE", "GPAGE", "GPRIO", "GPRIO", "GDRAW", "GDRAW",
                      "GPUTCHR", "VISIBLE", "VISIBLE", "PNLTYPE", "PNLTYPE", "PNLSTR", "KEY", "ICONSET", "ICONCLR", "CHRSET", "CHRSET", "COLSET", "COLSET", "ICONPUSE", "FILE", "ACLS"])
        n = r.randrange
        sp = lambda: r.choice(sorted(self.have[self.sppage])) if self.have[self.sppage] else None
        if k == "PRINT":
            return "PRINT \"%s\"%s" % ("".join(chr(r.choice([n(32, 127), n(32, 34), n(0xa1, 0xdf)])).replace('"', "'") for _ in range(n(1, 70))), r.choice(["", ";"]))
        if k == "COLOR":
            return "COLOR %d,%d" % (n(16), n(16)) if n(2) else "COLOR %d" % n(16)
        if k == "LOCATE":
            return "LOCATE %d,%d" % (n(32), n(24))
        if k == "CLS":
            return "CLS" if n(4) == 0 else "REM"
        if k == "SPPAGE":
            self.sppage = n(2)
            return "SPPAGE %d" % self.sppage
        if k == "SPSET":
            i = n(100)
            self.have[self.sppage].add(i)
            top = 118 if self.sppage else 512
            w, h = r.choice([(16, 16), (8, 8), (32, 32), (64, 64), (16, 8), (32, 8), (8, 32), (8, 16), (16, 32), (32, 16), (32, 64), (64, 32)])
            self.sz = (w, h)
            s = "SPSET %d,%d,%d,%d,%d,%d" % (i, n(top - (24 if self.sppage else 16)), n(16), n(2), n(2), n(4))
            if n(4):
                s += ",%d,%d" % (w, h)
            return s + ":SPOFS %d,%d,%d" % (i, n(-40, 270), n(-40, 210))
        if k[:2] == "SP":
            i = sp()
            if i is None:
                return "REM"
            if k == "SPOFS":
                return "SPOFS %d,%s,%s%s" % (i, r.choice([str(n(-60, 280)), "%d.5" % n(-20, 256), "%d.99" % n(256)]), r.choice([str(n(-60, 220)), "%d.25" % n(-20, 200)]), r.choice(["", "", ",%d" % n(1, 30)]))
            if k == "SPANGLE":
                return "SPANGLE %d,%d%s" % (i, r.choice([0, 0, 90, 180, 270, 45, n(-360, 361)]), r.choice(["", "", ",%d" % n(1, 20)]))
            if k == "SPSCALE":
                return "SPSCALE %d,%d%s" % (i, r.choice([100, 100, 200, 50, n(201)]), r.choice(["", "", ",%d" % n(1, 20)]))
            if k == "SPHOME":
                return "SPHOME %d,%d,%d" % (i, r.choice([0, 8, 16, n(-128, 128)]), r.choice([0, 8, 16, n(-128, 128)]))
            if k == "SPCHR":
                return "SPCHR %d,%d" % (i, n(90 if self.sppage else 500)) + (",%d,%d,%d,%d" % (n(16), n(2), n(2), n(4)) if n(2) else "")
            if k == "SPANIM":
                return "SPANIM %d,%d,%d" % (i, n(1, 5), n(1, 6))
            if k == "SPCLR":
                if n(8) == 0:
                    self.have[self.sppage].clear()
                    return "SPCLR"
                self.have[self.sppage].discard(i)
                return "SPCLR %d" % i
        if k == "BGPAGE":
            return "BGPAGE %d" % n(2)
        if k == "BGPUT":
            return ":".join("BGPUT %d,%d,%d,%d,%d,%d,%d" % (n(2), n(64), n(64), n(1024), n(16), n(2), n(2)) for _ in range(3))
        if k == "BGFILL":
            x, y = n(64), n(64)
            return "BGFILL %d,%d,%d,%d,%d,%d,%d,%d,%d" % (n(2), x, y, min(63, x + n(9)), min(63, y + n(9)), n(1024), n(16), n(2), n(2))
        if k == "BGOFS":
            c = lambda: r.choice([str(n(512)), str(n(-600, 1200)), str(n(-9, 9)), "%d.5" % n(-20, 20), "-%d.25" % n(1, 300), str(r.choice([-524287, 524287, 511, 512, 513, -512, -513, -8, -7]))])
            return "BGOFS %d,%s,%s%s" % (n(2), c(), c(), r.choice(["", "", ",%d" % n(1, 30)]))
        if k == "BGCLR":
            return "BGCLR %d" % n(2) if n(3) == 0 else "REM"
        if k == "BGCOPY":
            return "BGCOPY %d,%d,%d,%d,%d,%d,%d" % tuple([n(2)] + [n(64) for _ in range(6)])
        if k == "GPAGE":
            return "GPAGE %d,%d,%d" % (n(2), n(4), n(4))
        if k == "GPRIO":
            return "GPRIO %d" % n(4)
        if k == "GDRAW":
            return r.choice(["GLINE %d,%d,%d,%d,%d", "GFILL %d,%d,%d,%d,%d", "GBOX %d,%d,%d,%d,%d"]) % (n(256), n(192), n(256), n(192), n(256))
        if k == "GPUTCHR":
            return "GPUTCHR %d,%d,\"%s\",%d,%d,%d" % (n(250), n(180), r.choice(["BGU0", "BGD1", "SPU2", "BGF0"]), n(256), n(16), r.choice([1, 2, 4, 8]))
        if k == "VISIBLE":
            a = [r.choice(["", "0", "1", "1"]) for _ in range(6)]
            if n(12) == 0:
                a[n(6)] = r.choice(["2", "-1"])
                return "VISIBLE " + ",".join(a)
            if a[5] == "":       # the last operand cannot be left out
                a[5] = "1"
            for i in range(6):
                if a[i] != "":
                    self.visible = self.visible & ~(1 << i) | int(a[i]) << i
            return "VISIBLE " + ",".join(a)
        if k == "PNLTYPE":
            return "PNLTYPE \"%s\"" % r.choice(TYPES + ["OFF"])
        if k == "PNLSTR":
            return "PNLSTR %d,%d,\"%s\"" % (n(32), n(24), "".join(chr(n(65, 91)) for _ in range(n(1, 40)))) + (",%d" % n(16) if n(2) else "")
        if k == "KEY":
            return "KEY %d,\"%s\"" % (n(1, 6), "".join(chr(n(65, 91)) for _ in range(n(1, 9))))
        if k == "ICONSET":
            return "ICONSET %d,%d" % (n(4), n(65))
        if k == "ICONCLR":
            return "ICONCLR" if n(2) else "ICONCLR %d" % n(4)
        if k == "ICONPUSE":
            return "ICONPUSE=%d:ICONPMAX=3" % n(2)
        if k == "CHRSET":
            bank = r.choice(["BGF0U", "BGF1U", "BGF0L", "BGF1L", "BGF0", "BGD0U", "BGD0L", "BGD3L", "BGD1L", "BGU0U", "BGU1U", "BGU2U", "BGU3U", "BGU0L", "BGU1L", "BGU2L", "BGU3L", "SPU0", "SPU1", "SPU3", "SPU4",
                             "SPU7", "SPD0", "SPD5", "SPD7", "SPS0U", "SPS1U", "SPS0L", "SPS1L", "SPS0", "SPK0", "SPK3"])
            c = n(1, 256)
            if bank.startswith("BGD") and c in (0, 15) and n(3):
                c = 16
            c = r.choice([c, c, 65, 108 * 4 % 256])
            return "CHRSET \"%s\",%d,\"%s\"" % (bank, c, "".join(r.choice("00123456789ABCDEF") for _ in range(64)))
        if k == "COLSET":
            return "COLSET \"%s\",%d,\"%06X\"" % (r.choice(["BG", "SP", "GRP", "BG", "SP"]), n(256), n(1 << 24))
        if k == "FILE":
            b = r.choice(["BGU1U", "SPU0", "BGF0L", "SPS0L", "SPD6", "COL0U", "COL1L", "COL2U", "SCU0U", "SCU1L", "GRP0", "GRP2"])
            return r.choice(["SAVE \"%s:F%d\"", "LOAD \"%s:F%d\"", "LOAD \"%s:F%d\",0"]) % (b, n(3)) if b[:3] not in ("COL", "SCU", "GRP") or True else ""
        if k == "ACLS" and n(5) == 0:
            self.visible = 63
            return "ACLS"
        return "REM"


def make(ck, i):
    rng = ck.rng
    g = Gen(rng)
    acts = ["fs"]
    if i % 3 == 0:   # keyboard and panel resources
        acts.append("wfile resources/SPD6.PTC %s" % (F.TYPESTR["chr"] + nib(rng, 8192)).hex())
        for name, size in (("pnlKEY.NSCR", 36 + 1536), ("pnlPANEL.NSCR", 36 + 1536), ("makeALPHA_SHIFT.NCGR", 48 + 16384), ("makeKANA.NCGR", 48 + 16384)):
            acts.append("wfile resources/%s %s" % (name, bytes(rng.choice([0, 0, rng.randrange(256)]) for _ in range(size)).hex()))
    acts += ["window", "draw", "resthin %d" % rng.randrange(1, 1 << 30), "draw"]
    marks = [(63, "start"), (63, "resources")]
    for step in range(rng.randrange(4, 9)):
        sts = []
        if step == 0 and rng.random() < .8:     # a stage full of sprites
            if rng.random() < .6:
                sts.append('PNLTYPE "OFF"')
            for sc in rng.choice([(0, 1), (1, 0), (0,), (1,)]):
                g.sppage = sc
                sts.append("SPPAGE %d" % sc)
                while len(sts) < 25:
                    s = g.st(rng.choice(["SPSET", "SPSET", "SPSET", "SPANGLE", "SPSCALE", "SPHOME", "SPCHR", "SPANIM"]))
                    sts.append(s)
                    if len(sts) > 12 and sc and rng.random() < .15:
                        break
        for _ in range(rng.choice([1, 1, 2, 5, 12])):
            sts.append(g.st())
        # one line each: a failing statement does not keep the others from running
        for s in sts:
            acts.append(direct(s.encode("latin-1") + b"\r"))
        if rng.random() < .3:
            acts.append("%s %d" % (rng.choice(["spstep", "bgstep"]), rng.choice([1, 2, 5])))
        if rng.random() < .4:
            t = rng.choice([(1, rng.randrange(256), rng.randrange(192)), (1, rng.randrange(256), rng.randrange(48, 192)), (1, rng.randrange(160, 256), rng.randrange(168, 192)), (0, 0, 0)])
            acts.append("touch %d %d %d" % t)
        acts.append("draw")
        marks.append((g.visible, ":".join(sts)))
    tail = 0
    if i % 2 == 0:     # the cursor while a program waits for input
        acts += ["touch 0 0 0", "drawframes 1", "testmode 0", "frames ;k0041;;k0042;k0008;k000d 5", prg(b"LOCATE %d,%d\rINPUT A$\r" % (rng.randrange(32), rng.randrange(24)), 0, 8000)]
        acts += ["drawframes 0", "draw"]
        tail = 1
    acts.append("windown")
    return Case("c%d" % i, acts, (marks, tail))


# every bank the screens can show, and how the stage shows it
BANKS = ["SPU%d" % i for i in range(8)] + ["SPS0L", "SPS1L"] + ["BGU%d%s" % (i, s) for i in range(4) for s in "UL"] + ["BGF0U", "BGF0L", "BGD0U"] + ["BGD%dL" % i for i in range(2)] + \
    ["SPD%d" % i for i in range(4)]
COLS = ["COL%d%s" % (i, s) for i in range(3) for s in "UL"]
PACKED = [b for b in F.PACKAGE if b in BANKS or b in COLS or b[:3] == "SCU" or b[:4] in ("GRP0", "GRP1")]


def updates():
    u = [(k, b) for b in BANKS for k in ("LOAD", "CHRSET") + ("INIT",)]
    u += [("LOAD", b) for b in COLS + ["SCU%d%s" % (i, s) for i in range(2) for s in "UL"] + ["GRP0", "GRP1"]]
    u += [("LOADP", b) for k, b in u if k == "LOAD" and b[-1] in "UL" and b[:3] in ("BGU", "BGF", "SPS", "COL", "SCU")]
    u += [("PACK", b) for b in PACKED]
    u += [("COLSET", b) for b in COLS] + [("COLINIT", b) for b in COLS + ["all", "one"]]
    u += [("GPUTCHR", s) for s in "UL"]
    u += [("BARE", b) for b in ("BGU0U", "BGU0L", "BGF0U", "BGF0L", "SPS0L")]     # named without bank and screen
    return u


def needs_keys(b):
    return b[:3] == "SPD" or b[:3] == "BGD" and b[-1] == "L"


def nib(rng, n):
    return bytes(rng.choice([0, 0, rng.randrange(256)]) for _ in range(n))


def make_update(ck, i, todo):
    """one stage which shows every bank, then one change of a bank per frame"""
    rng = ck.rng
    acts = ["fs"]
    for k, b in todo:
        kd = F.slot(b, {"BG": 0, "SP": 0, "GRP": 0})[0] if b[:3] in F.COUNT else "chr"
        if k == "INIT":     # CHRINIT takes the name without the screen
            acts.append("wfile resources/%s.PTC %s" % (b[:4], (F.TYPESTR["chr"] + nib(rng, 8192)).hex()))
    if any(k == "COLINIT" for k, b in todo):
        for n in range(3):
            acts.append("wfile resources/COL%d.PTC %s" % (n, (F.TYPESTR["col"] + rng.randbytes(512)).hex()))
    acts += ["window", "resthin %d" % rng.randrange(1, 1 << 30), "mkdir programs"]

    def run(s):
        acts.append(direct(s.encode("latin-1") + b"\r"))
    panel = rng.choice(["KYA", "KYA", "KYM", "KYK"]) if needs_keys(todo[0][1]) else "OFF"
    todo = sorted(todo, key=lambda t: (t[1][:3] == "SCU", t[1][:3] in ("GRP", "U", "L")))
    run('PNLTYPE "%s"' % panel)
    run("CLS:COLOR 1,2:PRINT \"ABC\":COLOR 1,0:FOR I=32 TO 254:PRINT CHR$(I);:NEXT")
    run("FOR I=32 TO 254:A$=A$+CHR$(I):NEXT:PNLSTR 0,2,A$:FOR I=0 TO 3:ICONSET I,I*16:NEXT")
    run("SPPAGE 0:FOR I=0 TO 7:SPSET I,I*64+%d,%d,0,0,0,16,16:SPOFS I,I*18,100:NEXT" % (rng.randrange(60), rng.randrange(16)))
    run("SPPAGE 1:FOR I=0 TO 1:SPSET I,I*64+%d,%d,0,0,1,16,16:SPOFS I,I*18,100:NEXT" % (rng.randrange(50), rng.randrange(16)))
    chars = {}
    for s in (0, 1):
        run("BGPAGE %d:BGCLR 0:BGCLR 1" % s)
        for b in range(4):
            chars["BGU%d%s" % (b, "UL"[s])] = c = rng.choice([1, 255, rng.randrange(1, 256), rng.randrange(1, 256)])
            run("BGFILL %d,%d,%d,%d,%d,%d,%d,0,0" % (b % 2, b * 4, 16, b * 4 + 3, 20, b * 256 + c, rng.randrange(16)))
    run("SPPAGE 0:BGPAGE 0:GPAGE 1,1,1:GPAGE 0,0,0")
    acts += ["spr %d" % s for s in (0, 1)]
    acts.append("draw")
    marks = ["stage"]
    page = 0
    for n, (k, b) in enumerate(todo):
        name = "F%d" % n
        if k in ("LOAD", "LOADP"):
            kd = F.slot(b, {"BG": 0, "SP": 0, "GRP": 0})[0]
            d = nib(rng, F.SIZE[kd]) if kd != "col" else rng.randbytes(512)
            acts.append("wfile programs/%s.PTC %s" % (name, F.px01(name, kd, d).hex()))
            if k == "LOADP":     # the screen chosen by the page statement
                w = {"SPS": "SPPAGE", "BGU": "BGPAGE", "BGF": "BGPAGE", "SCU": "BGPAGE", "COL": ["BGPAGE", "SPPAGE", "GPAGE"][int(b[3]) if b[:3] == "COL" else 0]}[b[:3]]
                run("%s %d" % (w, b[-1] == "L"))
                run("LOAD\"%s:%s\",0" % (b[:4], name))
                run("%s 0" % w)
            else:
                run("LOAD\"%s:%s\",0" % (b, name))
        elif k == "CHRSET":
            bank = b
            cs = [rng.randrange(256) for _ in range(2)]
            if b in chars:
                cs = [chars[b]]
            elif b == "BGD0U":
                cs = [15]
            elif b[:3] == "BGF":
                cs = [rng.randrange(65, 91), 33]
            acts.append("snap")
            if b[:3] in ("SPU", "SPS"):   # all quarters of the sprites shown
                cs = []
                run("FOR I=0 TO 255 STEP 3:CHRSET \"%s\",I,\"%s\":NEXT" % (b, "".join(rng.choice("0123456789ABCDEF") for _ in range(64))))
            if b[:3] == "SPD" or b[:3] == "BGD" and b != "BGD0U":
                cs = []
                run("FOR I=%d TO 255:CHRSET \"%s\",I,\"%s\":NEXT" % (1 if b[:3] == "BGD" else 0, b, "".join(rng.choice("0123456789ABCDEF") for _ in range(64))))
            for c in cs:
                run("CHRSET \"%s\",%d,\"%s\"" % (b, c, "".join(rng.choice("0123456789ABCDEF") for _ in range(64))))
        elif k == "BARE":
            w = ("SPPAGE" if b[:2] == "SP" else "BGPAGE", b[-1] == "L")
            run("%s %d:FOR I=1 TO 255:CHRSET\"%s\",I,\"%s\":NEXT:%s 0" % (w + (b[:3], "".join(rng.choice("0123456789ABCDEF") for _ in range(64)), w[0])))
        elif k == "INIT":
            if b[-1] in "L":
                run("%s 1:CHRINIT\"%s\":%s 0" % (("SPPAGE", b[:4], "SPPAGE") if b[:2] == "SP" else ("BGPAGE", b[:4], "BGPAGE")))
            else:
                run("CHRINIT\"%s\"" % b[:4])
        elif k == "PACK":
            word = 1 << F.PACKAGE.index(b)
            kd = F.slot(b, {"BG": 0, "SP": 0, "GRP": 0})[0]
            d = nib(rng, F.SIZE[kd]) if kd != "col" else rng.randbytes(512)
            body = struct.pack("<III", word >> 32, word & 0xffffffff, 4) + b"REM\r" + F.TYPESTR[kd] + d
            acts.append("wfile programs/%s.PTC %s" % (name, F.px01(name, "prg", body).hex()))
            run(rng.choice(["LOAD\"%s\",0", "EXEC\"%s\""]) % name)
        elif k == "COLSET":
            w = ["BG", "SP", "GRP"][int(b[3])]
            pg = {"BG": "BGPAGE", "SP": "SPPAGE", "GRP": "GPAGE"}[w]
            run("%s %d:FOR I=0 TO 255:COLSET \"%s\",I,\"%06X\":NEXT:%s 0" % (pg, b[4] == "L", w, rng.randrange(1 << 24), pg))
        elif k == "COLINIT":
            if b == "all":
                run("COLINIT")
            elif b == "one":
                run("COLINIT \"BG\",%d" % rng.randrange(1, 256))
            else:
                w = ["BG", "SP", "GRP"][int(b[3])]
                pg = {"BG": "BGPAGE", "SP": "SPPAGE", "GRP": "GPAGE"}[w]
                run("%s %d:COLINIT \"%s\":%s 0" % (pg, b[4] == "L", w, pg))
        elif k == "GPUTCHR":
            run("GPAGE %d,%d,%d:GPUTCHR %d,%d,\"BGU0\",%d,%d,8:GPAGE 0,0,0" % (b == "L", b == "L", b == "L", rng.randrange(180), rng.randrange(120), rng.randrange(256), rng.randrange(16)))
        acts.append("draw")
        marks.append("%s %s" % (k, b))
    acts.append("windown")
    return Case("u%d" % i, acts, ([(63, m) for m in marks], 0))


def judge(ck, c, r):
    if ck.crash(r, c):
        return
    marks, tail = c.meta
    ds = r.all("draw")
    if len(ds) < len(marks):
        ck.violation("nodraw", "only %d of %d frames were drawn" % (len(ds), len(marks)), case_text(c))
        return
    for i, d in enumerate(ds):
        where = "frame %d%s" % (i, " after " + marks[i][1] if i < len(marks) else "")
        vis = marks[min(i, len(marks) - 1)][0]
        if d["visible"] != vis:
            ck.violation("visible", "%s: VISIBLE flags are %d instead of %d" % (where, d["visible"], vis), case_text(c))
            return
        if d["bad"]:
            ck.violation("dots-" + d["first"][0]["layer"], "%s: %d dots differ, first %s" % (where, d["bad"], d["first"]), case_text(c))
            return
        if d["cleared"] < 1 or d["displayed"] != 1 or d["noshader"]:
            ck.violation("frame", "%s: cleared %d, shown %d times, %d draws without the palette shader" % (where, d["cleared"], d["displayed"], d["noshader"]), case_text(c))
            return
        if d["leak"]:
            ck.violation("leak", "%s: drawing changed the number of textures, vertex arrays or sprites held" % where, case_text(c))
            return
        if d["changed"]:
            ck.violation("changed", "%s: drawing changed the sprites or the panel" % where, case_text(c))
            return
        ck.case((c.id, i))
        ck.count("dots judged", 98304 - d["any"])
        ck.count("dots without a rule", d["any"])
        ck.count("dots with several allowed colours (turned or scaled sprites)", d["multi"])
        for l, k in d["layers"].items():
            ck.count("dots decided by " + l, k)
    lv = r.get("live")
    if lv and any(lv["v"]):
        ck.violation("live", "textures, vertex arrays, sprites, views, shaders still held after the system is gone: %s" % lv["v"], case_text(c))
        return
    ck.count("cases with the cursor shown", tail)
    return True


def main():
    ck = Check("C33")
    ck.rule = "one evaluation per drawn frame; distinct = distinct (case, frame)"
    binp = build("asan", "drvd.c")
    n = ck.n(100, 3000)
    up = updates()
    cases = []
    for rep in range(ck.n(1, 12)):
        ck.rng.shuffle(up)
        for g in (0, 1):
            part = [u for u in up if needs_keys(u[1]) == g]
            for i in range(0, len(part), 8):
                cases.append(make_update(ck, rep * 1000 + 500 * g + i, part[i:i + 8]))
    res = run_cases(binp, cases, cpu=120, wall=400)
    for c in cases:
        if judge(ck, c, res[c.id]):
            d = res[c.id].all("draw")
            for a, b, m in zip(d, d[1:], c.meta[0][1:]):
                ck.count("bank updates seen on the screen" if a["image"] != b["image"] else "bank updates without visible effect")
                if os.environ.get("C33_DEBUG") and a["image"] == b["image"]:
                    print("unseen", m)
    for base in range(0, n, 600):
        cases = [make(ck, i) for i in range(base, min(n, base + 600))]
        res = run_cases(binp, cases, cpu=120, wall=400)
        for c in cases:
            judge(ck, c, res[c.id])
    ck.sample("\n".join(l for l in case_text(cases[0]).splitlines() if not l.startswith("wfile"))[:2500])
    return ck.finish(min_evals=200)


if __name__ == "__main__":
    sys.exit(main())
