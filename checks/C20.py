#!/usr/bin/env python3
"""C20: SAVE/LOAD/APPEND/EXEC against a model of the program directory; fingerprints of every resource bank, the program memory and MEM$ are compared after every statement."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

CALL, TYPE = E.ILLEGAL_FUNCTION_CALL, E.INVALID_RESOURCE_TYPE
NCHR, NSCR, NCOL = 22, 4, 3
CHRBASE = {"BGF": 0, "BGD": 4, "BGU": 8, "SPU": 12, "SPD": 12 + NCHR, "SPS": 20}
COUNT = {"BGF": 1, "BGD": 2, "BGU": 4, "SPU": 8, "SPD": 4, "SPS": 2, "COL": 3, "SCU": 2, "GRP": 4}
SIZE = {"chr": 8192, "scr": 8192, "grp": 49152, "col": 512, "mem": 516}
TYPESTR = {"prg": b"PETC0300RPRG", "chr": b"PETC0100RCHR", "scr": b"PETC0100RSCR", "grp": b"PETC0100RGRP", "mem": b"PETC0200RMEM", "col": b"PETC0100RCOL"}
PACKAGE = ["SPU%d" % i for i in range(8)] + ["BGU%dU" % i for i in range(4)] + ["BGF0U"] + ["COL%dU" % i for i in range(3)] + \
    ["SCU0U", "SCU1U"] + ["GRP%d" % i for i in range(4)] + ["MEM"] + ["SPD%d" % i for i in range(4)] + ["BGU%dL" % i for i in range(4)] + ["BGF0L"] + \
    ["COL%dL" % i for i in range(3)] + ["SCU0L", "SCU1L", "SPS0U", "SPS1U", "BGD0U", "BGD1U", "SPS0L", "SPS1L", "BGD0L", "BGD1L"]
ALL = ["MEM"] + ["GRP%d" % i for i in range(4)] + ["SPU%d" % i for i in range(8)] + ["SPD%d" % i for i in range(4)] + \
    [t + "%d" % i + p for t in ("BGU", "BGF", "BGD", "SPS", "COL", "SCU") for i in range(COUNT[t]) for p in ("", "U", "L")]
MAXPRG = 524288


class Bad(Exception):
    pass


def fnv(b):
    h = 1469598103934665603
    for x in b:
        h = (h ^ x) * 1099511628211 & 0xFFFFFFFFFFFFFFFF
    return str(h)


def slot(name, pages):
    """resource name -> (kind, index in the fingerprint list)"""
    if name in ("MEM", "PRG"):
        return name.lower(), 0
    t, n, p = name[:3], int(name[3:4] or 0), name[4:]
    if t == "GRP":
        return "grp", n
    if t in ("SPU", "SPD"):
        return "chr", CHRBASE[t] + n
    cur = {"SPS": pages["SP"], "SCU": pages["BG"]}.get(t, pages["BG"])
    if t == "COL":
        cur = pages[("BG", "SP", "GRP")[n]]
    s = cur if not p else int(p == "L")
    if t == "SCU":
        return "scr", 2 + n + NSCR * s
    if t == "COL":
        return "col", n + NCOL * s
    return "chr", CHRBASE[t] + n + NCHR * s


def make_prg(rng, names):
    """(text, effect) ; effect(x, lookup) -> (x, error)"""
    k, a, n = rng.randint(0, 50), rng.randint(-20, 20), rng.randint(1, 4)
    v = rng.randrange(8)
    if v <= 3:
        lines = ["X=X*2+%d" % k, "READ A,B$", "GOSUB @S%d" % n, "FOR I=1 TO %d:X=X+1:NEXT" % n, "END", "@S%d" % n, "X=X+A", "RETURN", "DATA %d,TXT" % a]
        if v == 0:      # the DATA comes first: it is read from its start whatever was read before
            lines.insert(0, lines.pop())
        return "\r".join(lines) + "\r", ("run", lambda x: x * 2 + k + a + n, 0, None)
    if v == 4:
        return "X=X+%d\r%s\rX=0\r" % (k, "RETURN"), ("run", lambda x: x + k, E.RETURN_WITHOUT_GOSUB, None)
    if v == 5:
        return "X=X+%d\rNEXT\rX=0\r" % k, ("run", lambda x: x + k, E.NEXT_WITHOUT_FOR, None)
    if v == 6:
        return "X=X+%d\rREAD A\rX=0\r" % k, ("run", lambda x: x + k, E.OUT_OF_DATA, None)
    t = rng.choice(names)
    return "X=X+%d\rD=D+1\rIF D>3 THEN END\rEXEC\"%s\":X=X+100\rX=X+200\r" % (k, t), ("chain", lambda x: x + k, 0, t)


def effect(prog, x, files, depth=0):
    """what running a program does to X: (x, error, text now in memory or None) ; None = not predictable"""
    kind, f, err, nxt = prog[1]
    x = f(x)
    if abs(x) > 100000:
        return None
    if kind == "chain":
        depth += 1
        if depth > 3:
            return x, 0
        t = files.get(nxt)
        if t and t["kind"] == "prg" and t.get("prog"):
            return effect(t["prog"], x, files, depth)
        if t and t["kind"] == "prg" and t["text"] != "":
            return None
        return x + 300, 0
    return x, err


def memtext(rng):
    """MEM file content: 256 characters, length"""
    return struct.pack("<256H", *[rng.choice(range(0xFF21, 0xFF3B)) for _ in range(256)]) + struct.pack("<I", rng.choice([0, 1, 7, 256]))


def px01(name, kind, body):
    return b"PX01" + struct.pack("<II", len(body) + 12, 0) + name.encode().ljust(8, b"\0") + b"\xAA" * 16 + TYPESTR[kind] + body


def run():
    ck = Check("C20")
    ck.rule = "statement x resource (every bank) x file (present, missing, other type, external format, packaged, compressed) x history; every bank, program memory, MEM$ and file compared after every statement; distinct = (statement, resource, file state)"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for k in range(ck.n(900, 6000)):
        acts = ["sys", "fs"]
        ops = []
        names = rng.sample(["A", "B1", "LONGNAME", "Z_9", "_X", "12345678", "QQ", "lower"], 4)
        pages = {"BG": 0, "SP": 0, "GRP": 0}
        gk = {}                     # kind of each file, to aim the statements
        look = ["resfp", "prgmem", "ls"]
        pool = rng.sample(ALL, 5) + ["MEM"]
        for r in pool:
            kd, b = slot(r, pages)
            if kd != "mem":
                acts.append("resfill %s %d %d" % (kd, b, rng.randrange(1 << 30)))
        acts += look

        def do(op, *act):
            ops.append(op)
            acts.extend(act)
            acts.extend(look)
        for _ in range(rng.randint(14, 26)):
            o = rng.random()
            nm = rng.choice(names)
            r = rng.choice(pool)
            if o < .07:
                w, v = rng.choice(["BG", "SP", "GRP"]), rng.randrange(2)
                do(("page", w, v), direct("%s %d\r" % ({"BG": "BGPAGE", "SP": "SPPAGE", "GRP": "GPAGE"}[w], v)))
            elif o < .17:
                kd, b = slot(r, pages)
                b = rng.choice([b, b, b ^ 1]) if kd != "mem" else 0
                if kd == "mem":
                    t = "".join(rng.choice("ABCXYZ 019") for _ in range(rng.choice([0, 1, 5, 40, 90])))
                    do(("mem", t), direct("MEM$=\"%s\"\r" % t))
                    if rng.random() < .5:      # a new text, also the empty one, is what is saved
                        do(("SAVE", "MEM", nm), None)
                        gk[nm] = "mem"
                        t = "".join(rng.choice("ABCXYZ 019") for _ in range(rng.choice([0, 0, 1, 30])))
                        do(("mem", t), direct("MEM$=\"%s\"\r" % t))
                        nm = rng.choice(names)
                        do(("SAVE", "MEM", nm), None)
                        gk[nm] = "mem"
                        if rng.random() < .5:
                            do(("mem", "Q"), direct("MEM$=\"Q\"\r"))
                            do(("LOAD", "MEM", nm), None)
                else:
                    do(("fill", ), "resfill %s %d %d" % (kd, b, rng.randrange(1 << 30)))
            elif o < .27:
                t = make_prg(rng, names)
                if rng.random() < .1:
                    t = ("", None)
                do(("prg", t), "prgset %s" % hx(t[0]))
            elif o < .29:
                n = rng.choice([MAXPRG - 3, MAXPRG - 40, 65536, 65535, 70000, MAXPRG])
                do(("big", n), "prgbig %d %d" % (n, rng.choice([13, 39])))
            elif o < .46:
                if rng.random() < .3:
                    r = "PRG"
                gk[nm] = slot(r, pages)[0]
                do(("SAVE", r, nm), None)
            elif o < .66:
                if rng.random() < .3:
                    r = "PRG"
                if rng.random() < .8 and gk:
                    nm = rng.choice(list(gk))
                    r = "PRG" if gk[nm] == "prg" else rng.choice([x for x in pool + ALL if slot(x, pages)[0] == gk[nm]])
                do(("LOAD", r, nm), None)
            elif o < .73:
                if rng.random() < .8:
                    nm = rng.choice([x for x in gk if gk[x] == "prg"] or [nm])
                do(("APPEND", "PRG" if rng.random() < .93 else r, nm), None)
            elif o < .83:
                if rng.random() < .8:
                    nm = rng.choice([x for x in gk if gk[x] == "prg"] or [nm])
                do(("EXEC", "PRG" if rng.random() < .95 else r, nm, rng.randint(-50, 50)), None)
            elif o < .90:
                bad = rng.choice(["", "ABCDEFGHI", "GRP0:", "GRP4:A", "COL3:A", "BGX:A", "A/B", "../A", "A.B", "MEM:A:B", "GRP0:ABCDEFGHI", "A B", "PRGX0Y:A", "SPU0L:A", "/A", "A\\B", "BGU0X:A", "COL0:é".encode("utf-8").decode("latin-1")])
                do(("badname", rng.choice(["SAVE", "LOAD", "APPEND", "EXEC"]), bad), None)
            else:
                # a file from outside: SD card format, with packages, or compressed container with raw content
                f = rng.random()
                gk[nm] = "prg"
                if f < .5:
                    t = make_prg(rng, names)
                    if rng.random() < .06:  # a long program: only comments follow
                        n = rng.choice([65536, 70000, 131072, 65535]) + rng.randrange(8) - len(t[0])
                        t = (t[0] + "END\r" + ("'" + "x" * 60 + "\r") * (n // 62) + "'" * (n % 62), t[1])
                    bits = sorted(rng.sample(range(45), rng.choice([0, 1, 1, 2, 4]))) if rng.random() < .7 else [rng.choice([0, 15, 16, 22, 31, 32, 44])]
                    word = sum(1 << i for i in bits)
                    body = struct.pack("<III", word >> 32, word & 0xFFFFFFFF, len(t[0])) + t[0].encode("latin-1")
                    body += b"\0" * (-len(t[0]) % 4)
                    pk = {}
                    for i in bits:
                        kd, b = slot(PACKAGE[i], pages)
                        d = rng.randbytes(SIZE[kd])
                        if kd == "mem":
                            d = memtext(rng)
                        body += TYPESTR[kd] + d
                        pk[kd, b] = d
                    inner = rng.choice(["INNER", "NAMEFULL", nm])
                    sd = rng.random() < .6
                    data = px01(inner, "prg", body) if sd else TYPESTR["prg"] + body
                    do(("file", nm, {"kind": "prg", "text": t[0], "prog": t, "pk": pk, "package": "%012X" % word, "prgname": inner if sd else nm}), "wfile programs/%s.PTC %s" % (nm, data.hex()))
                else:
                    kd = rng.choice(["chr", "scr", "col", "mem", "grp"]) if rng.random() < .3 else slot(r, pages)[0]
                    d = rng.randbytes(SIZE[kd])
                    if kd == "mem":
                        d = memtext(rng)
                    gk[nm] = kd
                    w = rng.choice(["PX01", "PETC", "SBCC"])
                    if w == "PX01":
                        data = px01(nm, kd, d)
                    elif w == "PETC":
                        data = TYPESTR[kd] + d
                    else:
                        data = b"SBCC\xff" + struct.pack("<I", len(d))[:3] + d
                    do(("file", nm, {"kind": kd if w != "SBCC" else "sbcc", "size": SIZE[kd], "data": d}), "wfile programs/%s.PTC %s" % (nm, data.hex()))
        # fill in the statements
        it = iter(ops)
        full = []
        for a in acts:
            if a is None:
                op = next(x for x in it if x[0] in ("SAVE", "LOAD", "APPEND", "EXEC", "badname"))
                if op[0] == "badname":
                    full.append(direct("%s\"%s\"\r" % (op[1], op[2])))
                    full.append(direct("\r"))
                elif op[0] == "EXEC":
                    f = ("" if op[1] == "PRG" else op[1] + ":") + op[2]
                    full.append(direct("X=%d:D=0\rRESTORE @D:READ Q:GOSUB @G\rEND\r@G\rFOR J=1 TO 3\rEXEC \"%s\":X=X+1000\rX=X+5000\rEND\r@D\rDATA 1,2,3\r" % (op[3], f)))
                    full.append(direct("R=RESULT\r"))
                    full.append("var R")
                    full.append("var X")
                else:
                    f = ("" if op[1] == "PRG" and rng.random() < .7 else op[1] + ":") + op[2]
                    full.append(direct("%s \"%s\"\r" % (op[0], f)))
                    full.append(direct("R=RESULT:A$=MEM$:N$=PRGNAME$:P$=PACKAGE$\r"))
                    full += ["var R", "var A$", "var N$", "var P$"]
            else:
                full.append(a)
        cases.append(Case("f%d" % k, full, ops))
    res = run_cases(binp, cases)
    txt = lambda h: "".join(chr(u - 0xFEE0 if 0xFF00 < u < 0xFF5F else 0x20 if u == 0x3000 else u) for u in uns(h))
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        obs, pos = r.obs, 0

        def nxt(t):
            nonlocal pos
            while obs[pos]["t"] != t:
                pos += 1
            pos += 1
            return obs[pos - 1]

        def snap():
            f, p, l = nxt("resfp"), nxt("prgmem"), nxt("ls")
            s = {(kd, i): str(v) for kd in ("chr", "scr", "grp", "col") for i, v in enumerate(f[kd])}
            s["mem", 0] = p["mem"]
            s["memlen"] = p["memlen"]
            s["prg"] = (p["size"], p["fp"])
            s["name"], s["package"] = bytes.fromhex(p["name"]).decode("latin-1"), p["package"]
            return s, {bytes.fromhex(n).decode("latin-1"): (sz, h) for n, sz, h in l["v"]}
        files, pages = {}, {"BG": 0, "SP": 0, "GRP": 0}
        mem, dirl = snap()
        prog, text = None, ""        # program in memory: (text, effect)
        done, op = [], ("start", )
        try:
            for op in c.meta:
                done.append(str(op)[:120])
                o = op[0]
                want, free = dict(mem), set()      # expected state; keys allowed to differ
                wfile = None
                if o == "page":
                    nxt("run")
                    pages[op[1]] = op[2]
                elif o == "mem":
                    nxt("run")
                    free |= {("mem", 0)}
                    want["memlen"] = len(op[1])
                elif o == "fill":
                    free |= {x for x in want if isinstance(x, tuple) and x[0] != "mem"}
                elif o == "prg":
                    prog, text = (op[1] if op[1][1] else None), op[1][0]
                    want["prg"] = (len(text), fnv(text.encode("latin-1")))
                elif o == "big":
                    free.add("prg")
                    prog, text = None, None
                elif o == "file":
                    files[op[1]] = op[2]
                    wfile = op[1]
                elif o == "badname":
                    err = nxt("run")["err"]
                    nxt("run")
                    bad = {CALL, TYPE}
                    ck.case(op)
                    ck.count("bad_names")
                    if err not in bad:
                        raise Bad("error %s for an invalid name" % E.name(err))
                else:
                    err = nxt("run")["err"]
                    nxt("run")
                    R = nxt("var")["v"]
                    f = files.get(op[2])
                    isprg = op[1] == "PRG"
                    ck.case((o, op[1], str(f and f["kind"])))
                    if o == "EXEC":
                        X = nxt("var")["v"]
                    else:
                        mstr, nstr, pstr = (nxt("var")["v"] for _ in range(3))
                    wantR, wanterr = 1, 0
                    sl = slot(op[1], pages)
                    if o in ("APPEND", "EXEC") and not isprg:
                        wanterr, wantR = TYPE, None
                        if o == "EXEC":
                            wantX = op[3]
                    elif o == "SAVE":
                        wfile = op[2]
                        if isprg:
                            files[op[2]] = {"kind": "prg", "text": text, "prog": prog, "pk": {}, "package": "0" * 12, "prgname": op[2], "state": mem["prg"]}
                            if not mem["prg"][0]:
                                wantR = None
                        else:
                            files[op[2]] = {"kind": sl[0], "fp": mem[sl], "mlen": mem["memlen"]}
                        ck.count("saved_" + sl[0])
                    elif isprg:
                        ok = f and f["kind"] == "prg"
                        ck.count(o + ("_prg" if ok else "_prg_failing"))
                        if not ok:
                            wantR = 0
                        if o == "EXEC":
                            wantX = op[3] + 6000
                        if ok:
                            st = f.get("state") or (len(f["text"]), fnv(f["text"].encode("latin-1")))
                            if not st[0]:
                                wantR = None
                            if o == "APPEND":
                                total = min(mem["prg"][0] + st[0], MAXPRG)
                                if text is not None and f["text"] is not None:
                                    text = (text + f["text"])
                                    prog = None
                                    want["prg"] = (len(text), fnv(text.encode("latin-1")))
                                    files_txt = text
                                else:
                                    text, prog = None, None
                                    free.add("prg")
                                    want["prgsize"] = total
                            else:
                                if o == "EXEC":
                                    wanterr, wantX = None, None
                                    if f["prog"] and f["prog"][1]:
                                        kind = f["prog"][1][0]
                                        e = effect(f["prog"], op[3], files)
                                        if e:
                                            wantX, wanterr = e
                                        if kind == "chain" and f["prog"][1][3] in files:
                                            # the program started by the program decides what is in memory now
                                            free |= set(want)
                                            wantR = None
                                            text, prog = None, None
                                        elif kind == "chain":
                                            wantR = 0
                                    else:
                                        free |= set(want)
                                        wantR = None
                                        if st[0] == 0:
                                            wanterr, wantX = 0, None
                                        text, prog = None, None
                                if "memlen" not in free:
                                    text, prog = f["text"], f["prog"]
                                    want["prg"], want["name"], want["package"] = st, f["prgname"], f["package"]
                                    for s2, d in f["pk"].items():
                                        want[s2] = d.hex() if s2[0] == "mem" else fnv(d)
                                        if s2[0] == "mem":
                                            want["memlen"] = struct.unpack("<I", d[512:])[0]
                                    if f["pk"]:
                                        ck.count("packages", len(f["pk"]))
                                elif text is None and prog is None and free:
                                    pass
                        if o == "LOAD" and ok and st[0] == 0:
                            text, prog = f["text"], f["prog"]
                    else:
                        ok = f and (f["kind"] == sl[0] or f["kind"] == "sbcc" and f["size"] == SIZE[sl[0]])
                        ck.count("LOAD_" + sl[0] + ("" if ok else "_failing"))
                        if not ok:
                            wantR = 0
                        else:
                            if "fp" in f:
                                want[sl] = f["fp"]
                            elif sl[0] == "mem":
                                want[sl] = f["data"].hex()
                            else:
                                want[sl] = f.get("dfp") or fnv(f["data"])
                                f["dfp"] = want[sl]
                            if sl[0] == "mem":
                                n = f["mlen"] if "mlen" in f else struct.unpack("<I", bytes.fromhex(want[sl])[512:])[0]
                                want["memlen"] = n
                                if n > 256:          # not a MEM$ (any bytes of the right size)
                                    want["memlen"], wantR = 0, 0
                                    free.add(("mem", 0))
                    if wanterr is not None and err != wanterr:
                        raise Bad("error %s instead of %s" % (E.name(err), E.name(wanterr)))
                    if wantR is not None and R != wantR * 4096:
                        raise Bad("RESULT is %s instead of %s" % (R / 4096, wantR))
                    if o == "EXEC" and wantX is not None and X != wantX * 4096:
                        raise Bad("X is %s instead of %s" % (X / 4096, wantX))
                got, gl = snap()
                wps = want.pop("prgsize", None)
                for key in want:
                    if key not in free and got[key] != want[key]:
                        what = "%s %s" % key if isinstance(key, tuple) else {"prg": "program text", "name": "PRGNAME$", "package": "PACKAGE$", "memlen": "length of MEM$"}[key]
                        raise Bad("%s is %s instead of %s%s" % (what, str(got[key])[:80], str(want[key])[:80], "" if want[key] != mem[key] else " (changed although not named)"))
                if wps is not None and got["prg"][0] != wps:
                    raise Bad("program size is %d instead of %d" % (got["prg"][0], wps))
                if o in ("SAVE", "LOAD") and "memlen" not in free:
                    w = bytes.fromhex(got["mem", 0])[:got["memlen"] * 2]
                    if uns(mstr) != struct.unpack("<%dH" % got["memlen"], w):
                        raise Bad("MEM$ is %r, stored are %r" % (mstr, w.hex()))
                    if txt(nstr) != got["name"] or txt(pstr) != (got["package"].lstrip("0") or "0"):
                        raise Bad("PRGNAME$ %r PACKAGE$ %r; stored are %r, %r" % (txt(nstr), txt(pstr), got["name"], got["package"]))
                for n in set(gl) | set(dirl):
                    if gl.get(n) != dirl.get(n) and n != "programs/%s.PTC" % wfile:
                        raise Bad("file %s changed" % n)
                if o == "SAVE" and wfile and "programs/%s.PTC" % wfile not in gl:
                    raise Bad("no file programs/%s.PTC" % wfile)
                if o == "badname" or o == "EXEC" and not free:
                    pass
                mem, dirl = got, gl
        except Bad as e:
            ck.violation(op[0], "%s: %s\nafter %s" % (str(op)[:300], e, "; ".join(done[:-1])[-900:]), case_text(c))
    return ck.finish(min_evals=400)


if __name__ == "__main__":
    main(run, "C20")
