#!/usr/bin/env python3
"""C01: random programs and single statements from the whole language with arguments of every kind, under sanitizers with gaps behind every memory block, with key, button and touch
input, small and large memories and interruption; after every run: documented end, usable state, balanced string pool.  Single statements: nothing but the object they work on changed."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import fuzz

SYS = [(2048, 4096, 262144, 1), (2048, 4096, 262144, 1), (64, 32, 2048, 1), (128, 16, 512, 1), (256, 64, 100, 1), (32, 300, 4000, 1), (16, 8, 64, 1), (2048, 4096, 262144, 0)]
PRE = "DIM Q[10],R[4,5],S$[6],T$[2,3],P[10],O[10]:A=1:B=2:C=3:I=0:J=0:X=0:Y=0:Z=0:A$=\"\":B$=\"AB\":C$=\"\":X$=\"\"\r"


def script(rng, n):
    """frames of key, button and touch input"""
    out = []
    held = 0
    touch = None
    for _ in range(n):
        f = ""
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 6])):
            f += "k%04x" % rng.choice([0x0d, 0x0d, 0x31, 0x2d, 0x2e, 0x2c, 0x41, 0xff11, 0xff21, 0x20, 0x22, 0xe000, 0xffff, 1, 0xff0c, 0xff0d, 0x3042, rng.randrange(1, 65536)])
        if rng.random() < .3:
            held = rng.choice([0, 0, 0, 16, 1 << rng.randrange(12), rng.randrange(4096), 0x1000, 0xffff])
        if held:
            f += "b%d" % held
        if rng.random() < .25:
            touch = None if rng.random() < .5 else (rng.randrange(256), rng.choice([rng.randrange(192), rng.randrange(72, 192)]))
        if touch:
            f += "t%d,%d" % touch
        out.append(f)
    return ";".join(out) or "-"


def runs(rng):
    """one case with many short direct programs or a few long ones"""
    cfg = rng.choice(SYS)
    acts = ["sys %d %d %d %d" % cfg, "fs 1", "frames - 20"]
    wild = rng.choice([0, .03, .1, .1, .25, .6])
    f = fuzz.Fuzz(rng, wild)
    if rng.random() < .3:
        for i in range(3):
            acts.append("resfill grp %d %d" % (i, rng.randrange(1000)))
    n = 0
    if rng.random() < .5:
        acts.append(direct(PRE))
        for _ in range(rng.randint(10, 45)):
            if rng.random() < .12:
                acts.append(rng.choice(["touch %d %d %d %d" % (rng.randint(0, 1), rng.randrange(256), rng.randrange(192), rng.randint(1, 5)), "btn %d %d" % (rng.randrange(4096), rng.randint(1, 3)),
                                        "key %04x %04x 000d" % (rng.randrange(1, 65536), rng.randrange(1, 65536)), "spstep %d" % rng.choice([1, 2, 30, 200]), "bgstep %d" % rng.choice([1, 2, 60]), "time 100"]))
            if rng.random() < .5:
                acts.append("frames %s %d" % (script(rng, rng.choice([0, 2, 6])), rng.choice([3, 10])))
            l = [f.line() for _ in range(rng.choice([1, 1, 2]))]
            acts.append(direct(fuzz.text(l), rng.choice([0, 0, 0, 2, 1]), 40))
            n += 1
            if rng.random() < .15:
                acts += ["inv"]
    else:
        opts = rng.choice([0, 0, 2])
        for _ in range(rng.randint(1, 3)):
            acts.append("frames %s %d" % (script(rng, rng.choice([0, 5, 20])), rng.choice([5, 30])))
            src = fuzz.text(f.program(rng.choice([3, 8, 15, 40])))
            acts.append(prg(src, opts, 60))
            n += 1
            acts += ["inv", "spstep %d" % rng.choice([1, 10]), "bgstep 5"]
    acts += ["spstep 3", "bgstep 3", "frames - 3", direct("R=0\r"), "pool", "inv"]
    return acts, n


def bulk(rng):
    """long valid programs that fill tables: variables, strings, arrays, calls, labels, loops, values"""
    cfg = rng.choice(SYS)
    k = rng.randrange(9)
    n = rng.choice([5, 20, 40, 64, 120, 300])
    L = []
    if k == 0:
        L = ["V%d=%d:V%d$=\"x%d\"" % (i, i, i, i) for i in range(n)]
    elif k == 1:
        L = ["DIM V%d[%d]" % (i, rng.choice([1, 7, 100, 5000])) for i in range(n)] + ["DIM W%d$[%d,%d]" % (i, 3, 4) for i in range(n // 4)]
    elif k == 2:
        L = ["@R", rng.choice(["GOSUB @R", "FOR I=0 TO 9:GOSUB @R", "FOR I=0 TO 5:FOR J=0 TO 5:GOTO @R", "A$=A$+\"ab\":GOSUB @R:RETURN"])]
    elif k == 3:
        L = ["@L%d" % i for i in range(min(n * 20, 3000))] + ["GOTO @L%d" % rng.randrange(n)]
    elif k == 4:
        d = rng.choice([10, 30, 60, 90])
        L = ["A=" + "(" * (d // 2) + "1" + ")" * (d // 2), "A=" + "-" * d + "1", "A=" + "+".join(["1"] * (d // 2)), "A$=" + "+".join(["A$"] * (d // 4)), "PRINT " + ";".join("1" * (d // 3)),
             "A=" + "ABS(" * (d // 6) + "1" + ")" * (d // 6), "A=1" + "+(1" * (d // 4) + ")" * (d // 4), "A=Q[" * (d // 5) + "0" + "]" * (d // 5), "GPSET " + ",".join("1" * (d // 2))]
    elif k == 5:
        L = ["DIM S$[%d]" % n, "FOR I=0 TO %d:S$[I]=STR$(I)+\"xy\"*%d:NEXT" % (n + 1, rng.choice([1, 50, 127, 128, 200])), "FOR I=0 TO 9:A$=S$[I]+S$[I+1]:B$=MID$(A$,I,300):NEXT"]
    elif k == 6:
        L = ["DATA " + ",".join(rng.choice(["1", "\"a\"", "", "x", "-5.5"]) for _ in range(20)) for _ in range(n)] + ["FOR I=0 TO 999:READ %s:NEXT" % rng.choice(["A", "A$", "A$,B$", "Q[I]"])]
    elif k == 7:
        L = ["FOR I=0 TO 1" + ":FOR J%d=0 TO 1" % i for i in range(n)] + [":".join(["NEXT"] * 20)] * 2
    else:
        L = ["PRINT \"%s\"" % ("x" * rng.randint(0, 80)) + rng.choice(["", ";", ","]) for _ in range(n)] + ["A$=\"%s\"*%d:PRINT A$;A$;A$" % ("ab", rng.choice([1, 100, 128, 129])), "INPUT \"%s\";A$" % ("p" * 40)]
    L = [x[:100] for x in L]
    acts = ["sys %d %d %d %d" % cfg, "fs 1", "frames %s 3" % script(rng, 5), prg(fuzz.text(L), rng.choice([0, 2]), 200), "inv", direct("R=0\r"), "pool", "inv"]
    return acts, 1


# ---------------------------------------------------------------- isolation: what a statement may change
# patterns of objects by statement; %p is the page or layer in use before the statement
def allowed(name, st):
    bg, sp, gs, d0, d1 = st
    dp = (d0, d1)[gs if gs in (0, 1) else 0]
    T = {
        "PRINT": "con.text con.color con.pos con.tab", "CLS": "con.text con.color con.pos panel.text", "LOCATE": "con.pos con.text con.color", "COLOR": "con.col", "VISIBLE": "visible",
        "VSYNC": "", "WAIT": "", "BGPAGE": "bg.page", "BGCLIP": "bg.clip.%d" % bg, "BGOFS": "bg.ofs.%d.[01]" % bg, "BREPEAT": "input.repeat",
        "BGCLR": "scr.*", "BGFILL": "scr.*", "BGPUT": "scr.*", "BGCOPY": "scr.*", "CHRINIT": "chr.*", "CHRSET": "chr.*", "COLINIT": "col.*", "COLSET": "col.*",
        "GPAGE": "gfx.*", "GCOLOR": "gfx.color", "GDRAWMD": "gfx.mode", "GPRIO": "gfx.%d" % gs, "ICONCLR": "panel.keys", "ICONSET": "panel.keys", "PNLSTR": "panel.text",
        "PNLTYPE": "panel.type panel.keys panel.keytext panel.text panel.shift panel.cursor panel.press scr.*", "SPPAGE": "spr.page",
        "KEY": "key.* panel.keytext", "CLEAR": "var arr", "SORT": "", "RSORT": "",
    }
    if name in T:
        return T[name].split()
    if name == "GPUTCHR":
        return ["grp.%d" % dp, "col.[25]"]   # it takes the colors along
    if name in ("GBOX", "GCIRCLE", "GCLS", "GCOPY", "GFILL", "GLINE", "GPAINT", "GPSET"):
        return ["grp.%d" % dp]
    if name in ("SPANGLE", "SPANIM", "SPCHR", "SPCLR", "SPCOL", "SPCOLVEC", "SPHOME", "SPOFS", "SPSCALE", "SPSET", "SPSETV"):
        return ["spr.%d.*" % sp]
    return []


ISO = ["PRINT", "CLS", "LOCATE", "COLOR", "VISIBLE", "BGPAGE", "BGCLIP", "BGOFS", "BREPEAT", "BGCLR", "BGFILL", "BGPUT", "BGCOPY", "CHRINIT", "CHRSET", "COLINIT", "COLSET", "GPAGE", "GCOLOR",
       "GDRAWMD", "GPRIO", "ICONCLR", "ICONSET", "PNLSTR", "PNLTYPE", "SPPAGE", "KEY", "CLEAR", "SORT", "RSORT", "GBOX", "GCIRCLE", "GCLS", "GCOPY", "GFILL", "GLINE", "GPAINT", "GPSET", "GPUTCHR",
       "SPANGLE", "SPANIM", "SPCHR", "SPCLR", "SPCOL", "SPCOLVEC", "SPHOME", "SPOFS", "SPSCALE", "SPSET", "SPSETV", "BGREAD", "CHRREAD", "COLREAD", "SPREAD", "READ", "RESTORE", "SWAP", "DTREAD",
       "TMREAD", "BEEP", "BGMPLAY", "assign", "assign", "assign", "if", "for", "BGMSTOP", "BGMVOL", "BGMSETV", "BGMCLEAR"]
DATA = "DATA 1,\"two\",3,4.5,\"five\",\"\",7\r"
LABL = "\r".join(fuzz.LABELS) + "\r"


def isolate(rng):
    wild = rng.choice([0, .15, .15, .5, .9])
    acts = ["sys 256 512 20000 1", "fs 1", "frames - 5"]
    want = []
    for i in range(4):
        acts.append("resfill grp %d %d" % (i, rng.randrange(1000)))
    acts += ["resfill chr %d %d" % (i, rng.randrange(1000)) for i in rng.sample(range(44), 6)] + ["resfill scr %d %d" % (i, rng.randrange(1000)) for i in range(8)]
    acts.append(direct(PRE))
    acts.append(direct("FOR K=0 TO 1:SPPAGE K:FOR I=0 TO 99 STEP 3:SPSET I,I,1,0,0,0:SPOFS I,I,I+K:NEXT:NEXT:SPPAGE %d:GPAGE %d,%d,0:BGPAGE %d\r" % tuple(rng.choice(x) for x in ((0, 1), (0, 1), (0, 1, 2, 3), (0, 1)))))
    acts.append("snap")
    for _ in range(rng.randint(8, 25)):
        f = fuzz.Fuzz(rng, wild)
        name = rng.choice(ISO)
        for _ in range(60):
            f.touched.clear()
            if name == "assign":
                s = f.assign()
            elif name == "if":
                s = "IF %s THEN Z=%s ELSE Z=1" % (f.num(2), f.num(2))
                f.touched.add("Z")
            elif name == "for":
                s = "FOR Z=%s TO %s:NEXT" % (rng.choice(["0", "A", "-2.5"]), rng.choice(["0", "2", "A+1"]))
                f.touched.add("Z")
            else:
                s = f.named(name)
            if len(s) <= 100 and "\r" not in s:
                break
        else:
            continue
        src = s + "\r"
        if name == "READ":
            src += DATA
        if "@" in s:
            src += "END\r" + LABL
        acts += ["frames - 3", direct(src, 0, 60), "snap"]
        want.append((name, s, frozenset(f.touched)))
    acts += [direct("R=0\r"), "pool", "inv"]
    return acts, want


RW = {"TABSTEP": ["con.tab"], "ICONPUSE": ["icon", "panel.keys", "scr.*"], "ICONPAGE": ["icon", "panel.keys"], "ICONPMAX": ["icon", "panel.keys"], "MEM$": ["mem"]}


def changed_ok(name, s, touched, ch, st):
    """objects changed that must not have been"""
    pats = list(allowed(name, st))
    for t in touched:
        if t in RW:
            pats += RW[t]
        else:
            pats += ["(new)?(var|arr):" + re.escape(t)]
    if "INKEY$" in s:
        pats.append("input.inkey")
    if "SPHIT" in s:
        pats.append("sphit")
    if name == "CLEAR":
        pats.append("(gone|new)?(var|arr):.*")
    # a variable or array that is only read comes into being with its default value
    pats.append("new(var|arr):.*")
    # a change of an icon setting before this statement can become visible with any statement
    pats = [p.replace(".*", "\\..*") if p.endswith(".*") and not p.startswith("(") and not p.startswith("new") else p for p in pats]
    return [c for c in ch if not any(re.fullmatch(p, c) for p in pats)]


def run():
    ck = Check("C01")
    ck.rule = "a run counts as distinct by its statements' names and how it ended"
    rng = ck.rng
    binp = build("asan")
    known = set(v for v in E._d.values())
    cases = []
    for i in range(ck.n(6000, 60000)):
        acts, n = runs(rng)
        cases.append(Case("r%d" % i, acts, ("run", n)))
    for i in range(ck.n(800, 6000)):
        acts, n = bulk(rng)
        cases.append(Case("b%d" % i, acts, ("run", n)))
    for i in range(ck.n(2500, 25000)):
        acts, want = isolate(rng)
        cases.append(Case("i%d" % i, acts, ("iso", want)))
    res = run_cases(binp, cases, cpu=30, wall=180)
    # the same kind of programs while reads of values that were never written are watched for
    extra = []
    for i in range(ck.n(1200, 12000)):
        acts, n = (runs if rng.random() < .85 else bulk)(rng)
        extra.append(Case("m%d" % i, acts, ("run", n)))
    res.update(run_cases(build("msan"), extra, cpu=30, wall=180))
    cases += extra
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        kind, want = c.meta
        obs = r.obs
        runs_ = [o for o in obs if o["t"] == "run"]
        for o in runs_:
            ck.count("end_" + ("INTERRUPTED" if o["err"] == 9999 else E.name(o["err"]).replace("ERR_", "")))
            if o["err"] != 9999 and o["err"] not in known:
                ck.violation("code", "undocumented error code %d" % o["err"], case_text(c))
        for o in obs:
            if o["t"] == "inv" and o["v"]:
                ck.violation("state:" + o["v"][0][:60], "state out of its range: %s" % o["v"], case_text(c))
            if o["t"] == "pool" and o["bad"]:
                ck.violation("pool", "string pool: " + o["why"], case_text(c))
        if kind == "run":
            ck.case((c.id[0], tuple(o["err"] for o in runs_)), True)
            ck.count("programs_run", len(runs_))
            ck.count("frames_of_input", sum(a.startswith("frames") for a in c.acts))
            continue
        snaps = [o for o in obs if o["t"] == "snap"]
        ends = runs_[2:]
        for k, (name, s, touched) in enumerate(want):
            if k + 1 >= len(snaps) or k >= len(ends):
                ck.violation("lost", "observation missing", case_text(c))
                break
            bad = changed_ok(name, s, touched, snaps[k + 1]["v"], snaps[k]["page"])
            ck.case((name, ends[k]["err"], tuple(sorted(set(x.split(":")[0] for x in snaps[k + 1]["v"])))), bool(snaps[k + 1]["v"]))
            ck.count("isolated_statements")
            if bad:
                ck.violation("isolation:%s:%s" % (name, re.sub(r"[0-9]+", "N", bad[0].split(":")[0])), "%s changed %s" % (s, bad), case_text(c))
                break
            if snaps[k + 1]["v"]:
                ck.sample("%s -> %s changed only %s" % (s, E.name(ends[k]["err"]), snaps[k + 1]["v"][:4]))
    return ck.finish(min_evals=2000)


if __name__ == "__main__":
    main(run, "C01")
