#!/usr/bin/env python3
"""C36: start, CHRINIT, COLINIT and ACLS against the default resource files and the state of a fresh system; every bank compared after every statement."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import C19
import C20 as F

CHR_FILES = ["BGF0", "BGF1", "BGF0", "BGF1"] + ["BGD%d" % i for i in range(4)] + ["BGU%d" % i for i in range(4)] + ["SPU%d" % i for i in range(8)] + ["SPS0", "SPS1"]
LOWER = CHR_FILES[:12] + ["SPD%d" % i for i in range(8)] + CHR_FILES[20:]
CHR_FILES = CHR_FILES + LOWER
NAMES = sorted(set(CHR_FILES))
COLS = ["COL0", "COL1", "COL2"]
CHR_SIZE, COL_SIZE = 8192, 512
PAL = {"BG": 0, "SP": 1, "GRP": 2}
LOOK = ["con", "gstate", "bg", "spr 0", "spr 1", "panel", "flags"] + ["tiles %d %d" % (s, l) for s in (0, 1) for l in (0, 1)]
_fp, _data = {}, {}


def data(size, seed):
    if (size, seed) not in _data:
        out, x = bytearray(), seed
        for _ in range(size):
            x = (x * 1103515245 + 12345) & 0xffffffff
            out.append(x >> 16 & 255)
        _data[size, seed] = bytes(out)
    return _data[size, seed]


def fnv(b):
    h = 1469598103934665603
    for c in b:
        h = ((h ^ c) * 1099511628211) & (2 ** 64 - 1)
    return h


def fp(size, seed):
    """digest of the default file with this content; None: no file, all zero"""
    if (size, seed) not in _fp:
        _fp[size, seed] = fnv(data(size, seed) if seed is not None else bytes(size))
    return _fp[size, seed]


MESS = ["CLS", "COLOR %d,%d", "?\"abc\",%d", "LOCATE %d,%d", "GPAGE %b,%d,%d", "GCOLOR %c", "GPRIO %d", "BGPAGE %b", "BGOFS %b,%d,%d", "BGOFS %b,%d,%d,%n", "BGCLIP 1,2,%n,%n",
        "SPPAGE %b", "SPSET %n,%d,%d,0,0,%d", "SPOFS %n,%d,%n", "GDRAWMD %b", "ICONSET %d,%d", "PNLSTR %d,%d,\"hey\"", "VISIBLE %b,%b,%b,%b,%b,%b", "TABSTEP=%n",
        "KEY 1,\"hi\"", "GPSET %n,%n,%c", "GFILL 0,0,%n,%n,%c", "BGPUT %b,%n,%n,%c,%b,0,0", "BGFILL %b,0,0,%n,%n,%c", "COLSET \"BG\",%c,\"F08040\"", "COLSET \"SP\",%c,\"10F0F8\"",
        "COLSET \"GRP\",%c,\"F8F8F8\"", "CHRSET \"BGU1\",%c,\"" + "0123" * 16 + "\"", "MEM$=\"keep\"", "PNLTYPE \"OFF\"", "PNLTYPE \"KYA\"", "BREPEAT 0,5,5", "SPSCALE %n,50,%n"]


def mess(rng):
    t = rng.choice(MESS)
    for a, f in (("%d", lambda: rng.randrange(4)), ("%n", lambda: rng.randint(1, 31)), ("%c", lambda: rng.randrange(256)), ("%b", lambda: rng.randrange(2))):
        while a in t:
            t = t.replace(a, str(f()), 1)
    return t


def case(ck, i):
    rng = ck.rng
    acts = ["fs"]
    seeds = {n: rng.randrange(6) for n in NAMES + COLS}
    for n in rng.sample(NAMES + COLS, rng.choice([0, 0, 1, 3])):
        seeds[n] = None
    for n in NAMES + COLS:
        if seeds[n] is not None:
            head = F.TYPESTR["chr" if n in NAMES else "col"]
            if rng.random() < .2:
                head = b"PX01" + bytes(8) + b"NAME\0\0\0\0" + bytes(16) + head
            acts.append("wfill resources/%s.PTC %s %d %d" % (n, head.hex(), CHR_SIZE if n in NAMES else COL_SIZE, seeds[n]))
    acts += ["sys", "resfp"] + LOOK + ["vars", "pool"]
    script = []

    def do(kind, *a):
        acts.extend(a)
        acts.append("resfp")
        script.append(kind)
    page = {"BG": 0, "SP": 0, "GRP": 0}
    for _ in range(rng.randint(5, 12)):
        r = rng.random()
        if r < .35:
            k = rng.choice(["chr", "chr", "col", "col", "scr", "grp"])
            b = rng.randrange({"chr": 44, "col": 6, "scr": 8, "grp": 4}[k])
            do(("fill", k, b), "resfill %s %d %d" % (k, b, rng.randrange(1 << 30)))
        elif r < .45:
            w = rng.choice(["BG", "SP", "GRP"])
            page[w] = rng.randrange(2)
            do(("page",), direct("%s %d\r" % ({"BG": "BGPAGE", "SP": "SPPAGE", "GRP": "GPAGE"}[w], page[w])))
        elif r < .65:
            name = rng.choice([rng.choice(C19.FILL), rng.choice(C19.FILL)[:4], rng.choice(["BGU", "BGF", "BGD", "SPU", "SPD", "SPS"]),
                               rng.choice(["COL0", "GRP1", "", "BGU4", "SPU8", "SPD0U", "SPU1L", "bgu0", "BGF1", "SPS2L", "PRG", "BGU0X", "MEM", "SCU0", "BGU00", "X"])])
            do(("chrinit", name, C19.bank(name, page)), direct("CHRINIT \"%s\"\r" % name))
        elif r < .85:
            w = rng.choice(["BG", "SP", "GRP"])
            form = rng.randrange(6)
            if form == 5:
                do(("colinit", [PAL[w] + 3 * page[w]], None), direct("FOR I=0 TO 255:COLINIT \"%s\",I:NEXT\r" % w))
            elif form == 0:
                do(("colinit", [j for j in range(6)], None), direct("COLINIT\r"))
            elif form < 3:
                do(("colinit", [PAL[w] + 3 * page[w]], None), direct("COLINIT \"%s\"\r" % w))
            elif form == 3:
                n = rng.choice([0, 255, rng.randrange(256), rng.randrange(256)])
                b = PAL[w] + 3 * page[w]
                do(("colinit", [b], n, b), "colbank %d" % b, direct("COLINIT \"%s\",%d\r" % (w, n)), "colbank %d" % b)
            else:
                bad = rng.choice(["COLINIT \"COL0\"", "COLINIT \"\"", "COLINIT \"BGU0\"", "COLINIT \"GR\"", "COLINIT \"BG\",256", "COLINIT \"SP\",-1", "COLINIT \"GRPS\"", "COLINIT \"b\""])
                do(("badcol", bad), direct(bad + "\r"))
        else:
            ms = [mess(rng) for _ in range(rng.randint(2, 12))]
            k = rng.randrange(1, 4)
            x, y, z = (rng.randint(1, 99) for _ in range(3))
            src = ["A=%d:P=%d:I=%d:B$=\"x%d\"" % (x, y, z, x), "DIM Q(3):Q(%d)=7" % (x % 3), "READ C", "L=0", "FOR J=1 TO %d" % k, "GOSUB @S", "NEXT", "READ D", "END",
                   "@S", "ACLS:L=L+1", "RETURN", "DATA %d,%d" % (y, z)]
            acts.extend(direct(m + "\r") for m in ms)
            src = ["CLEAR"] + src
            want = {"A": x, "P": y, "I": z, "C": y, "D": z, "L": k, "J": k + 1}
            page = dict.fromkeys(page, 0)
            acts.append("flags")
            acts.append(prg("\r".join(src) + "\r"))
            acts.extend("var %s" % v for v in want)
            acts.append("arr Q")
            acts.extend(LOOK)
            do(("acls", ms, want, x % 3))
    return Case("i%d" % i, acts, (seeds, script))


def judge(ck, c, r):
    if ck.crash(r, c):
        return
    seeds, script = c.meta
    obs = iter(r.obs)

    def nxt(t):
        for o in obs:
            if o["t"] == t:
                return o
        raise HarnessError("no %s in %s" % (t, c.id))

    def bad(key, text):
        ck.violation(key, text, case_text(c))
    st = nxt("resfp")
    want = {"chr": [fp(CHR_SIZE, seeds[n]) for n in CHR_FILES], "col": [fp(COL_SIZE, seeds[n]) for n in COLS * 2],
            "scr": [fp(8192, None)] * 8, "grp": [fp(256 * 192, None)] * 4}
    for k in want:
        for b, (g, w) in enumerate(zip(st[k], want[k])):
            if g != w:
                return bad("start-" + k, "%s bank %d does not hold the default resource after the start" % (k, b))
    ck.count("banks compared at start", 62)
    fresh = [nxt(x.split()[0]) for x in LOOK]
    if fresh[0]["text"].strip("0") or fresh[6]["visible"] != 63 or fresh[6]["result"] != 1 or any(t["v"].strip("0") for t in fresh[7:]):
        return bad("start-state", "the fresh system is not empty: %s" % fresh[6])
    cur = {k: list(st[k]) for k in want}
    for s in script:
        kind = s[0]
        exp = {k: [[x] for x in cur[k]] for k in cur}
        err = None
        if kind == "fill":
            exp[s[1]][s[2]] = None
        elif kind == "page":
            err = nxt("run")["err"]
            if err:
                return bad("page", "%s gave %s" % (s, E.name(err)))
        elif kind == "chrinit":
            err = nxt("run")["err"]
            name, banks = s[1], s[2]
            if not banks:
                if not err:
                    return bad("chrinit-name", "CHRINIT \"%s\" was accepted" % name)
            else:
                f = CHR_FILES[banks[0]]
                if seeds[f] is None:
                    if err != E.FILE_LOAD_FAILED:
                        return bad("chrinit-missing", "CHRINIT \"%s\" without its file gave %s" % (name, E.name(err)))
                else:
                    if err:
                        return bad("chrinit-error", "CHRINIT \"%s\" gave %s" % (name, E.name(err)))
                    w = fp(CHR_SIZE, seeds[f])
                    if len(banks) == 1:
                        exp["chr"][banks[0]] = [w]
                    else:
                        for b in banks:
                            exp["chr"][b].append(w)
        elif kind == "colinit":
            if s[2] is None:
                err = nxt("run")["err"]
                for b in s[1]:
                    n = COLS[b % 3]
                    if seeds[n] is not None:
                        exp["col"][b] = [fp(COL_SIZE, seeds[n])]
                if err and all(seeds[COLS[b % 3]] is not None for b in s[1]):
                    return bad("colinit-error", "%s gave %s" % (s, E.name(err)))
            else:
                b, n = s[3], s[2]
                before, err, after = nxt("colbank")["v"], nxt("run")["err"], nxt("colbank")["v"]
                w = list(before)
                seed = seeds[COLS[b % 3]]
                if seed is not None:
                    if err:
                        return bad("colinit-error", "%s gave %s" % (s, E.name(err)))
                    d = data(COL_SIZE, seed)
                    w = before[:4 * n] + "%02x%02x" % (d[2 * n + 1], d[2 * n]) + before[4 * n + 4:]
                if list(after) != list(w):
                    return bad("colinit-one", "COLINIT of colour %d of palette %d did not set exactly this colour to its default" % (n, b))
                exp["col"][b] = None
        elif kind == "badcol":
            err = nxt("run")["err"]
            if not err:
                return bad("colinit-name", "%s was accepted" % s[1])
        elif kind == "acls":
            for _ in s[1]:
                nxt("run")
            nxt("flags")
            err = nxt("run")["err"]
            if err:
                return bad("acls-error", "the program with ACLS gave %s: %s" % (E.name(err), s[1]))
            for v, x in s[2].items():
                o = nxt("var")
                if o["v"] != x << 12:
                    return bad("acls-vars", "%s is %s instead of %d after ACLS" % (v, o["v"], x))
            q = nxt("arr")
            if not q.get("v") or q["v"][s[3]] != 7 << 12:
                return bad("acls-vars", "the array was changed by ACLS: %s" % q)
            now = [nxt(x.split()[0]) for x in LOOK]
            for k in ("x", "y", "col", "text", "color"):
                if now[0][k] != fresh[0][k]:
                    return bad("acls-console", "after ACLS the console's %s is not that of a fresh system (%s)" % (k, s[1]))
            for j, what in ((1, "graphics"), (2, "background"), (3, "sprites"), (4, "sprites")) + tuple((j, "tiles") for j in range(7, 11)):
                if what == "background":        # the steps of a movement that is over have no meaning
                    for o in (now[j], fresh[j]):
                        o["ofs"] = [x[:2] + x[4:] for x in o["ofs"]] if len(o["ofs"][0]) == 5 else o["ofs"]
                if now[j] != fresh[j]:
                    return bad("acls-" + what, "after ACLS the %s state is not that of a fresh system (%s): %s" % (what, s[1], str(now[j])[:300]))
            if now[5]["icon"] != fresh[5]["icon"] or now[5]["text"] != fresh[5]["text"] or now[6]["visible"] != 63:
                return bad("acls-panel", "after ACLS icons %s, visible %s (%s)" % (now[5]["icon"], now[6]["visible"], s[1]))
            for b in range(6):
                if seeds[COLS[b % 3]] is not None:
                    exp["col"][b] = [fp(COL_SIZE, seeds[COLS[b % 3]])]
                else:
                    exp["col"][b] = None
            exp["scr"] = [x + [fp(8192, None)] for x in exp["scr"]]    # which are layers: compared tile by tile above
            exp["scr"][5] = None                                          # the panel's own background
            exp["grp"][0] = exp["grp"][1] = [fp(256 * 192, None)]
            for b in range(44):
                exp["chr"][b] = None if any("CHRSET" in m for m in s[1]) and b in (9, 31) else exp["chr"][b]
            if any("GPSET" in m or "GFILL" in m for m in s[1]):
                exp["grp"][2] = exp["grp"][3] = None      # the lines before may have drawn there
            ck.count("ACLS compared with the fresh system")
        o = nxt("resfp")
        for k in cur:
            for b, g in enumerate(o[k]):
                if exp[k][b] is not None and g not in exp[k][b]:
                    return bad("%s-%s" % (kind, k), "%s bank %d is not what it should be after %s (%s)" % (k, b, s[:3], E.name(err) if err is not None else ""))
            cur[k] = list(o[k])
        ck.case((kind,) + tuple(map(str, s[1:3])))
        ck.count("%s%s" % (kind, "_err" if err else ""))


def main():
    ck = Check("C36")
    ck.rule = "statement x name x page x content of the banks and of the default files (some missing); every bank compared after every statement; distinct = statement and arguments"
    binp = build("asan")
    n = ck.n(500, 8000)
    for base in range(0, n, 2000):
        cases = [case(ck, i) for i in range(base, min(n, base + 2000))]
        res = run_cases(binp, cases, cpu=60, wall=200)
        for c in cases:
            judge(ck, c, res[c.id])
    return ck.finish(min_evals=1500)


if __name__ == "__main__":
    sys.exit(main())
