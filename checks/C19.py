#!/usr/bin/env python3
"""C19: CHRSET/CHRREAD and COLSET/COLREAD against a model of all character and colour banks; every byte of resource memory is compared after every statement."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

OOR, TYPE, CALL = E.OUT_OF_RANGE, E.INVALID_RESOURCE_TYPE, E.ILLEGAL_FUNCTION_CALL
BANKS, COLS = 22, 3
BASE = {"BGF": 0, "BGD": 4, "BGU": 8, "SPU": 12, "SPD": 12 + BANKS, "SPS": 20}
COUNT = {"BGF": 1, "BGD": 2, "BGU": 4, "SPU": 8, "SPD": 4, "SPS": 2}
HEX = "0123456789ABCDEF"


class Bad(Exception):
    pass


def bank(name, pages):
    """bank numbers a name may mean: empty = not a character name"""
    t, n, p = name[:3], name[3:4], name[4:]
    if t not in BASE or len(p) > 1:
        return []
    k = ord(n) - 48 if n else 0
    if n and not 0 <= k < COUNT[t] or len(n.encode()) > 1:
        return []
    if t == "SPU" or t == "SPD":
        return [BASE[t] + k] if p in ("", "U" if t == "SPU" else "L") else []
    if p not in ("", "U", "L"):
        return []
    cur = pages["SP" if t == "SPS" else "BG"]
    if not n:
        return sorted({BASE[t], BASE[t] + BANKS * cur})    # which screen a bare name means is not specified
    return [BASE[t] + k + BANKS * (int(p == "L") if p else cur)]


def pack(text):
    """pixel text -> bytes, left pixel in the low half; None when it is not valid"""
    if len(text) != 64 or any(c not in HEX for c in text):
        return None
    return bytes(HEX.index(text[i]) | HEX.index(text[i + 1]) << 4 for i in range(0, 64, 2))


def unpack(b):
    return "".join(HEX[x & 15] + HEX[x >> 4] for x in b)


def colour(text):
    if len(text) != 6 or any(c not in HEX for c in text):
        return None
    return tuple(int(text[i:i + 2], 16) >> s for i, s in ((0, 3), (2, 2), (4, 3)))


FILL = ["BGF0U", "BGF0L", "BGD0U", "BGD1U", "BGD0L", "BGD1L"] + ["BGU%d%s" % (i, p) for i in range(4) for p in "UL"] + \
       ["SPU%d" % i for i in range(8)] + ["SPD%d" % i for i in range(4)] + ["SPS%d%s" % (i, p) for i in range(2) for p in "UL"]
PAGE_OF = {"BG": "BGPAGE", "SP": "SPPAGE", "GRP": "GPAGE"}


class Model:
    def __init__(self):
        self.chr = {}
        self.col = {(b, c): (0, 0, 0) for b in range(6) for c in range(256)}
        self.pages = {"BG": 0, "SP": 0, "GRP": 0}

    def colbank(self, name):
        return None if name not in self.pages else ("BG", "SP", "GRP").index(name) + COLS * self.pages[name]


def gen_text(rng, n):
    k = rng.random()
    if k < .6:
        return "".join(rng.choice(HEX) for _ in range(n))
    if k < .8:
        return rng.choice(["0", "F", "1", "8", "7"]) * n
    t = [rng.choice(HEX) for _ in range(n)]
    if k < .92:
        t[rng.choice([0, n - 1, n // 2, rng.randrange(n)])] = rng.choice(["G", "a", "f", "/", ":", "@", "`", " ", "-", "."])
    else:
        t = t[:-1] if rng.random() < .5 else t + ["0"]
        if rng.random() < .3:
            t = t[:rng.choice([0, 1, n // 2])]
    return "".join(t)


def gen_name(rng):
    k = rng.random()
    if k < .75:
        n = rng.choice(FILL)
        if rng.random() < .35:
            n = n[:4]
        elif rng.random() < .15:
            n = n[:3]
        return n
    if k < .85:
        return rng.choice(["COL0", "SCU0", "GRP0", "MEM", "PRG", "COL0U"])
    n = rng.choice(FILL)
    return rng.choice([n.lower(), n[:2], "", "XXX", n[:3] + rng.choice("9847/-A"), n[:4] + rng.choice("XPul01"), n + "0", "S" + n, "BGX0", "SPX0", "SPU0L", "SPD0U", "BGD2", "BGF1", "BGU4", "SPU8", "SPD4", "SPS2", "SPK0"])


def gen_id(rng):
    return rng.choice([0, 1, 254, 255, rng.randrange(256), rng.randrange(256), rng.randrange(256), rng.randrange(256), rng.randrange(256), rng.choice([-1, 256, 511, 1000, 65536])])


def run():
    ck = Check("C19")
    ck.rule = "statement x resource name (every bank, with and without bank and screen, invalid) x number x text; all character and colour memory compared after every statement; distinct = statement with its arguments"
    rng = ck.rng
    binp = build("asan")
    fill = direct("FOR B=0 TO %d\rREAD N$\rFOR I=0 TO 255\rCHRSET N$,I,(HEX$(I,2)+HEX$(B,2))*16\rNEXT\rNEXT\rDATA %s\r" % (len(FILL) - 1, ",".join(FILL)))
    fillc = direct("FOR P=0 TO 1\rBGPAGE P:SPPAGE P:GPAGE P\rFOR I=0 TO 255\rCOLSET\"BG\",I,HEX$(I,2)+\"1\"+HEX$(P,1)+\"C0\"\rCOLSET\"SP\",I,HEX$(P*128,2)+HEX$(I,2)+\"48\"\rCOLSET\"GRP\",I,\"F8\"+HEX$(P*64,2)+HEX$(I,2)\rNEXT\rNEXT\rBGPAGE 0:SPPAGE 0:GPAGE 0\r")
    cases = []
    for k in range(ck.n(64, 800)):
        acts, ops = ["sys", direct("MEM$=\"WIDE\"*9\r"), fill, fillc, "resdiff"], []
        names = [gen_name(rng) for _ in range(4)]
        ids = [gen_id(rng) for _ in range(4)]
        for _ in range(rng.randint(120, 180)):
            op = rng.choice(["PAGE", "CHRSET", "CHRSET", "CHRSET", "CHRREAD", "CHRREAD", "COLSET", "COLSET", "COLREAD", "COLREAD"])
            i = rng.choice(ids) if rng.random() < .6 else gen_id(rng)
            n = rng.choice(names) if rng.random() < .5 else gen_name(rng)
            cn = rng.choice(["BG", "SP", "GRP", "BG", "SP", "GRP", "BG", "SP", "GRP", rng.choice(["", "B", "bg", "COL0", "GR", "GRP0", "BGF0", "SPU", "BGX"])])
            if op == "PAGE":
                w, v = rng.choice(["BG", "SP", "GRP"]), rng.randrange(2)
                ops.append((op, w, v))
                more = rng.choice(["", ",%d,%d" % (rng.randrange(4), rng.randrange(4))]) if w == "GRP" else ""
                acts += [direct("%s %d%s\r" % (PAGE_OF[w], v, more)), "resdiff"]
            elif op == "CHRSET":
                t = gen_text(rng, 64)
                ops.append((op, n, i, t))
                acts += [direct("A$=\"%s\"\rCHRSET \"%s\",%d,A$\r" % (t, n, i)), "resdiff"]
            elif op == "CHRREAD":
                ops.append((op, n, i))
                pre = rng.choice(["", "", "FOR J=0 TO %d:W$=MEM$:W$=\"\":W$=MEM$+\"X\":NEXT:" % rng.choice([1, 3, 40, 140])])
                acts += [direct(pre + "V$=\"keep\"\rCHRREAD(\"%s\",%d),V$\r" % (n, i)), "resdiff", "var V$"]
            elif op == "COLSET":
                t = gen_text(rng, 6)
                ops.append((op, cn, i, t))
                acts += [direct("COLSET \"%s\",%d,\"%s\"\r" % (cn, i, t)), "resdiff"]
            else:
                ops.append((op, cn, i))
                acts += [direct("R=-7:G=-7:B=-7\rCOLREAD(\"%s\",%d),R,G,B\r" % (cn, i)), "resdiff", "var R", "var G", "var B"]
        cases.append(Case("r%d" % k, acts, ops))
    res = run_cases(binp, cases)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        m = Model()
        obs, pos = r.obs, 0

        def nxt(t):
            nonlocal pos
            while obs[pos]["t"] != t:
                pos += 1
            pos += 1
            return obs[pos - 1]
        for b, n in enumerate(FILL):
            for i in range(256):
                m.chr[bank(n, m.pages)[0], i] = pack(("%02X%02X" % (i, b)) * 16)
        for p in (0, 1):
            for i in range(256):
                m.col[0 + COLS * p, i] = colour("%02X1%XC0" % (i, p))
                m.col[1 + COLS * p, i] = colour("%02X%02X48" % (p * 128, i))
                m.col[2 + COLS * p, i] = colour("F8%02X%02X" % (p * 64, i))
        done, op = [], ("initial", )
        try:
            if nxt("run")["err"] or nxt("run")["err"] or nxt("run")["err"]:
                raise Bad("filling all characters and colours through their names fails: errors %s" % [E.name(x["err"]) for x in r.all("run")[:3]])
            nxt("resdiff")
            for op in c.meta:
                done.append(str(op))
                ck.case(op)
                err = nxt("run")["err"]
                d = nxt("resdiff")
                chg = {(b, ch): bytes.fromhex(h) for b, ch, h in d["chr"]}
                cchg = {(b, ch): v for b, ch, v in d["col"]}
                if d["scr"] or d["grp"] or d["mem"]:
                    raise Bad("changed screens %s, graphics pages %s, MEM %s" % (d["scr"], d["grp"], d["mem"]))
                want, wchr, wcol = {0}, [{}], {}
                if op[0] == "PAGE":
                    m.pages[op[1]] = op[2]
                elif op[0][:3] == "CHR":
                    bs, i = bank(op[1], m.pages), op[2]
                    bad = set()
                    if not bs:
                        bad.add(TYPE)
                    if not 0 <= i <= 255:
                        bad.add(OOR)
                    if op[0] == "CHRSET":
                        data = pack(op[3])
                        if data is None:
                            bad.add(CALL)
                        if not bad:
                            wchr = [{(b, i): data} if m.chr[b, i] != data else {} for b in bs]
                    else:
                        v = "".join(chr(u - 0xFEE0 if u > 0xFF00 else u) for u in uns(nxt("var")["v"]))
                        ok = ["keep"] if bad else [unpack(m.chr[b, i]) for b in bs]
                        if v not in ok:
                            raise Bad("reads %r instead of %r" % (v, ok[0]))
                    want = bad or {0}
                else:
                    b, i = m.colbank(op[1]), op[2]
                    bad = set()
                    if b is None:
                        bad.add(TYPE)
                    if not 0 <= i <= 255:
                        bad.add(OOR)
                    if op[0] == "COLSET":
                        data = colour(op[3])
                        if data is None:
                            bad.add(CALL)
                        if not bad and m.col[b, i] != data:
                            wcol = {(b, i): data}
                    else:
                        v = [nxt("var")["v"] for _ in range(3)]
                        if bad:
                            w = [-7, -7, -7]
                        else:
                            r5, g6, b5 = m.col[b, i]
                            w = [r5 << 3 | r5 >> 2, g6 << 2 | g6 >> 4, b5 << 3 | b5 >> 2]
                        if v != [x * 4096 for x in w]:
                            raise Bad("reads %s instead of %s" % ([x / 4096 for x in v], w))
                    want = bad or {0}
                ck.count(op[0] + ("_err" if err else ""))
                if err not in want:
                    raise Bad("error %s instead of %s" % (E.name(err), [E.name(x) for x in want]))
                if chg not in wchr:
                    raise Bad("changed characters %s instead of %s" % ({k: v.hex() for k, v in list(chg.items())[:4]}, {k: v.hex() for k, v in wchr[0].items()}))
                m.chr.update(chg)
                gotc = {k: (v & 31, v >> 4 & 62 | v >> 15, v >> 10 & 31) for k, v in cchg.items()}
                if gotc != wcol:
                    raise Bad("changed colours (red, green, blue) %s instead of %s" % (dict(list(gotc.items())[:4]), wcol))
                m.col.update(wcol)
        except Bad as e:
            ck.violation(op[0], "%s: %s\nafter %s" % (op, e, "; ".join(done[:-1])[-700:]), case_text(c))
    return ck.finish(min_evals=4000)


if __name__ == "__main__":
    main(run, "C19")
