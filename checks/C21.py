#!/usr/bin/env python3
"""C21: file statements with hostile names, missing and malformed files and failing I/O, under ASan; every path opened, every file, the descriptors and all resources are observed."""
import os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import C20 as F

MAX = F.MAXPRG
DOC = {E.ILLEGAL_FUNCTION_CALL, E.INVALID_RESOURCE_TYPE, E.FILE_FORMAT, E.FILE_INTERAL, E.FILE_LOAD_FAILED}
PAGES = {"BG": 0, "SP": 0, "GRP": 0}
OK, FAIL, EITHER = "ok", "fail", "either"


class Bad(Exception):
    pass


def u32(d, o):
    return struct.unpack_from("<I", d, o)[0]


def judge_prg(d, append=False, room=MAX):
    """(verdict, bytes needed, touched banks)"""
    if d[:4] == b"PX01":
        if len(d) < 60:
            return FAIL, 60, set()
        typ, h = d[36:48], 48
    elif d[:4] == b"PETC":
        if len(d) < 24:
            return FAIL, 24, set()
        typ, h = d[:12], 12
    else:
        return FAIL, 4, set()
    if typ[8:] != b"RPRG":
        return FAIL, h + 12, set()
    either = typ != F.TYPESTR["prg"]
    size, start = u32(d, h + 8), h + 12
    word = u32(d, h) << 32 | u32(d, h + 4)
    if append:
        word = 0
    if size > MAX and not append or len(d) - start < min(size, room):
        return (FAIL if not append or len(d) - start < min(size, room) else EITHER), start, set()
    either |= size == 0 or word >> 45 != 0 or append and size > room
    pos, touched, bad = start + size + (-size % 4), set(), False
    if not word:
        pos = start + size
    for i in range(45):
        if word >> i & 1 and not bad:
            s = F.slot(F.PACKAGE[i], PAGES)
            n = F.SIZE[s[0]]
            bad = d[pos:pos + 12] != F.TYPESTR[s[0]]
            if not bad:
                touched.add(s)
                pos += 12 + n
                bad = len(d) < pos
    return (FAIL if bad else EITHER if either else OK), pos, touched


def judge_res(kind, d):
    n = F.SIZE[kind]
    suf = F.TYPESTR[kind][8:]
    if d[:4] == b"PX01":
        v, need = (OK if len(d) >= 48 + n and d[44:48] == suf else FAIL), 48 + n
    elif d[:4] == b"PETC":
        v, need = (OK if len(d) >= 12 + n and d[8:12] == suf else FAIL), 12 + n
    elif d[:4] == b"SBCC":
        if len(d) < 8 or d[5] | d[6] << 8 | d[7] << 16 != n or len(d) - 8 > n:
            return FAIL, 8
        if d[4] == 255:
            v, need = (OK if len(d) - 8 == n else FAIL), 8 + n
        else:
            v, need = EITHER, 4
    else:
        return FAIL, 4
    if v == OK and kind == "mem":
        if u32(d, need - 4) > 256:
            v = FAIL
    if v == FAIL:
        need = 0
    return v, need


def wrong_type(kind, d):
    """states another type, or none: nothing may change"""
    if d[:4] == b"PX01":
        return len(d) < 48 or d[44:48] != F.TYPESTR[kind][8:]
    if d[:4] == b"PETC":
        return len(d) < 12 or d[8:12] != F.TYPESTR[kind][8:]
    return d[:4] != b"SBCC"


def base_file(rng, kind, name):
    if kind == "prg":
        t = rng.choice(["X=5\r", "X=5\rDATA 1,2\r", "@A\rX=X+1\rIF X<9 THEN @A\r", "?\"HI\"\r", "X=5\r" * rng.choice([1, 100, 3000]), "X=5", "X=5\r'" + "Q" * rng.choice([90, 200, 2000]) + "\r",
                        "".join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 50, 3000])))])
        bits = rng.sample(range(45), rng.choice([0, 0, 0, 1, 2])) if rng.random() < .9 else [rng.randrange(45, 64)]
        w = sum(1 << i for i in bits)
        b = struct.pack("<III", w >> 32, w & 0xFFFFFFFF, len(t)) + t.encode("latin-1") + b"\0" * (-len(t) % 4)
        for i in sorted(bits):
            if i < 45:
                k = F.slot(F.PACKAGE[i], PAGES)[0]
                b += F.TYPESTR[k] + (F.memtext(rng) if k == "mem" else rng.randbytes(F.SIZE[k]))
    else:
        b = F.memtext(rng) if kind == "mem" else rng.randbytes(F.SIZE[kind])
        if rng.random() < .25:
            if rng.random() < .4:
                return b"SBCC\xff" + struct.pack("<I", len(b))[:3] + b
            n = rng.choice([0, 1, 7, 8, 64, len(b) // 2, len(b) - 1, len(b)])
            d = rng.choice([rng.randbytes(n), b"\xff" * n, b"\0" * n, bytes(rng.choice([0, 1, 0x80, 0xff]) for _ in range(n))])
            return b"SBCC" + bytes([rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 31, 32, 254])]) + struct.pack("<I", len(b))[:3] + d
    return F.px01(name[:8], kind, b) if rng.random() < .5 else F.TYPESTR[kind] + b


def mutate(rng, d):
    k = rng.random()
    if k < .15:
        return d
    if k < .4:                                                       # truncated
        n = rng.choice([0, 1, 3, 4, 5, 8, 11, 12, 13, 23, 24, 25, 44, 47, 48, 49, 59, 60, 61, 63, len(d) - 1, len(d) - 2, len(d) - 4, len(d) - 12, len(d) // 2, rng.randrange(len(d) + 1)])
        return d[:max(0, n)]
    b = bytearray(d)
    if k < .6:                                                       # corrupted header
        for _ in range(rng.choice([1, 1, 2, 4])):
            if b:
                b[rng.randrange(min(len(b), 64))] = rng.choice([0, 1, 255, 128, rng.randrange(256), ord("R"), ord("P")])
    elif k < .8:                                                     # oversized program
        o = 56 if d[:4] == b"PX01" else 20
        if len(b) >= o + 4:
            struct.pack_into("<I", b, o, rng.choice([0, 1, len(d) - o - 4, len(d) - o - 3, len(d) - o - 5, len(d), MAX, MAX + 1, MAX - 1, 65536, 65537, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0x01000004]))
        if rng.random() < .15:
            b += b"X=5\r" * rng.choice([MAX // 4, MAX // 4 + 1])
    elif k < .9:
        b += rng.randbytes(rng.choice([1, 3, 4, 100, 9000]))
    else:
        return rng.choice([b"", b"PX01", b"PETC", b"SBCC", b"PETC0300RPRG", b"PX01" * 12, rng.randbytes(100), b"SBCC" + b"\xff" * 9, rng.randbytes(70000)])
    return bytes(b)


HOSTILE = ["../SECRET", "../SECRET.PTC", "..", ".", "", "/etc/passwd", "SUB/A", "./A", "A/../B", "..\\SECRET", "A.PTC", "SECRET\x00", "\x00", "A\x00/../X", "~", "*", "%s%n", "A:B", ":", "::", "PRG:", "PRG:../SECRET", "GRP0:../SECRET", "MEM:/SECRET",
           "GRP0:..", "PRG:SUB/A", "A" * 9, "PRG:" + "A" * 9, "A" * 100, "PRG:" + "B" * 250, "../../../../../../../../tmp/X", "CHR:A", "BGU0U:A/B", "\xffA", "\x80", "A\nB", "A\rB", "|id", "$HOME", "con", "aux", "A ", " A", "-", "_"]


def chrs(s):
    return "+".join('"%s"' % x if re.fullmatch(r"[A-Za-z0-9_/.:*~%$ |\\-]+", x) else "CHR$(%d)" % ord(x) for x in re.findall(r"[A-Za-z0-9_/.:*~%$ |\\-]+|[^A-Za-z0-9_/.:*~%$ |\\-]", s)) or '""'


def run():
    ck = Check("C21")
    ck.rule = "statement x (hostile name | missing | malformed file | failing I/O); paths opened, all files, descriptors and resources observed; distinct = (statement, kind, name or file digest, fault)"
    rng = ck.rng
    binp = build("asan")
    cases = []
    names = ["A", "B1", "LONGNAME", "_X"]
    for k in range(ck.n(2000, 12000)):
        secret = F.TYPESTR["prg"] + struct.pack("<III", 0, 0, 8) + b"SECRET=1"
        acts = ["sys", "fs", "wfile SECRET.PTC " + secret.hex(), "wfile SECRET 41", "mkdir programs/SUB", "wfile programs/SUB/A.PTC " + secret.hex(), "wfile resources/SECRET.PTC " + secret.hex()]
        acts += [direct("X=5\r"), "paths"]
        look = ["resfp", "prgmem", "ls", "paths", "fds"]
        acts += look
        ops = []
        for _ in range(rng.randint(3, 6)):
            o = rng.random()
            nm = rng.choice(names)
            fault = (0, 0)
            if o < .12:
                st = rng.choice(["SAVE", "LOAD", "APPEND", "EXEC", "SAVE", "LOAD"])
                h = rng.choice(HOSTILE)
                if rng.random() < .3:
                    h = "".join(chr(rng.choice([0, 46, 47, 46, 47, 58, 65, 92, 95, rng.randrange(1, 256)])) for _ in range(rng.choice([1, 2, 3, 5, 8, 9, 12, 14, 15])))
                ops.append(("name", st, h))
                acts += [direct("%s %s\r" % (st, chrs(h)), 0, 500)] + look
                continue
            if o < .17:
                ops.append(("init", ))
                h = rng.choice(["BGF0", "SPU0", "../X", "BGU/.", "S/../", "SPS1L", "COL0", "MEM", "/", ""])
                acts += [direct(rng.choice(["CHRINIT %s\r", "COLINIT %s\r", "COLINIT %s,3\r"]) % chrs(h))] + look
                continue
            if o < .24:
                extra = rng.sample(["F1.PTC", "F2", ".hid", "a.b.c", "TOOLONGNAME.PTC", "12345678.PTC", "123456789.PTC", "sp ace.PTC", "B-1.PTC", "U_1.PTC", "NAME.", "..x", "%s%n.PTC", "x\"y", "\xc3\xa9.PTC", "Q" * 200, "Q" * 255, "A:B.PTC"], rng.randint(0, 8))
                for x in extra:
                    acts.append("wfile programs/%s 41" % x if not re.search(r"[ \"]", x) and ".." not in x else "paths")
                many = 0
                if rng.random() < .1:
                    many = 60
                    acts += ["wfile programs/M%d.PTC 41" % i for i in range(many)]
                ops.append(("FILES", many))
                acts += ["ls", direct("CLS:FILES\r"), "con"] + look
                continue
            kind = rng.choice(["prg", "prg", "prg", "chr", "scr", "grp", "col", "mem"])
            r = rng.choice([x for x in F.ALL if F.slot(x, PAGES)[0] == kind]) if kind != "prg" else "PRG"
            st = rng.choice(["LOAD", "LOAD", "APPEND", "EXEC"] if kind == "prg" else ["LOAD"])
            if rng.random() < .12:
                st = "SAVE"
            state = "file"
            data = None
            if st == "SAVE":
                state = rng.choice(["plain", "dir", "nodir"]) if rng.random() < .5 else "plain"
                if state == "plain":
                    fault = (rng.choice([1, 2]), 0)
                elif state == "dir":
                    acts += ["mkdir programs/DIR.PTC"]
                    nm = "DIR"
                if kind == "prg":
                    acts += ["prgset " + hx("X=5\r" * rng.choice([1, 2000]))]
            else:
                k2 = rng.random()
                if k2 < .05:
                    state = "missing"
                    nm = "NOFILE"
                elif k2 < .1:
                    state = "dir"
                    nm = "DIR"
                    acts += ["mkdir programs/DIR.PTC"]
                else:
                    data = mutate(rng, base_file(rng, kind if rng.random() < .93 else rng.choice(["prg", "chr", "col", "mem"]), nm))
                    acts += ["wfile programs/%s.PTC %s" % (nm, data.hex() or "-")]
                    if rng.random() < .2:
                        fault = (rng.choice([1, 3, 3, 3]), rng.choice([0, 1, 4, 8, 12, 16, 24, 48, 60, len(data) // 2, max(0, len(data) - 1), len(data) + 1]))
            big = kind == "prg" and st != "SAVE" and rng.random() < .06
            if big:
                acts += ["prgbig %d %d" % (rng.choice([MAX, MAX - 1, MAX - 5]), 13)]
            ops.append(("file", st, kind, r, nm, state, data, fault))
            acts += look + ["fault %d %d" % fault, direct("%s \"%s\"\r" % (st, ("" if r == "PRG" else r + ":") + nm), 0, 500), "fault 0"]
            acts += look + [direct("R=RESULT\r"), "var R"]
        cases.append(Case("m%d" % k, acts, ops))
    res = run_cases(binp, cases)
    good = re.compile(r"([rw])programs/[A-Za-z0-9_]{1,8}\.PTC|dprograms/?|rresources/[A-Z0-9]{4}\.PTC")
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        obs, pos = r.obs, 0

        def nxt(t):
            nonlocal pos
            while obs[pos]["t"] != t:
                pos += 1
            pos += 1
            return obs[pos - 1]

        def snap():
            f, p, l, w, n = nxt("resfp"), nxt("prgmem"), nxt("ls"), nxt("paths"), nxt("fds")
            s = {(kd, i): str(v) for kd in ("chr", "scr", "grp", "col") for i, v in enumerate(f[kd])}
            s["mem", 0] = (p["mem"], p["memlen"])
            s["prg", 0] = (p["size"], p["fp"])
            if p["size"] > MAX or p["memlen"] > 256:
                raise Bad("program size %d, MEM$ length %d" % (p["size"], p["memlen"]))
            return s, {bytes.fromhex(a).decode("latin-1"): (b, h) for a, b, h in l["v"]}, [bytes.fromhex(x).decode("latin-1") for x in w["v"]], n["n"]
        op, done = ("start", ), []
        try:
            nxt("run")
            state, dirl, _, fds = snap()
            for op in c.meta:
                done.append(str(op)[:100])
                saved = None
                if op[0] == "FILES":
                    ls = nxt("ls")
                    if nxt("run")["err"]:
                        raise Bad("error")
                    con = nxt("con")
                    rows = ["".join(chr(x - 0xFEE0 if 0xFF00 < x < 0xFF5F else 32 if x in (0, 0x3000) else 33 if x < 256 else x) for x in uns(con["text"][i * 128:i * 128 + 128])).rstrip() for i in range(24)]
                    have = {bytes.fromhex(a).decode("latin-1").split("/")[1] for a, _, _ in ls["v"] if bytes.fromhex(a).startswith(b"programs/")} | {"SUB"}
                    shown = sorted(x for x in rows if x)
                    must = sorted(x[:-4] for x in have if re.fullmatch(r"[A-Za-z0-9_]{1,8}\.PTC", x))
                    may = {x.split(".")[0] for x in have} | {"DIR", "SUB"}
                    ck.case(("FILES", tuple(must)))
                    ck.count("FILES")
                    if not op[1]:
                        if any(x not in may for x in shown):
                            raise Bad("shows %s, the files are %s" % (shown, sorted(have)))
                        if len(must) < 23 and any(x not in shown for x in must):
                            raise Bad("shows %s without %s" % (shown, [x for x in must if x not in shown]))
                    wtouch = set()
                elif op[0] in ("name", "init"):
                    err = nxt("run")["err"]
                    ck.case(op)
                    ck.count("names")
                    if op[0] == "name" and op[1] == "SAVE":
                        saved = "any"
                    wtouch = set(state)
                    valid = op[0] == "init" or re.fullmatch(r"([A-Z0-9]{3,5}:)?[A-Za-z0-9_]{1,8}", op[2].split("\0")[0])     # a name may end at a NUL
                    if not valid:
                        if err not in DOC and not (op[1] == "EXEC" and err):
                            raise Bad("error %s for an invalid name" % E.name(err))
                        wtouch, saved = set(), None
                else:
                    _, st, kind, rn, nm, fs, data, fault = op
                    state, dirl, _, fds = snap()
                    err = nxt("run")["err"]
                    sl = F.slot(rn, PAGES)
                    wtouch = {sl}
                    touched = set()
                    if st == "SAVE":
                        v = FAIL if fs == "dir" or fault[0] else OK
                        saved = nm
                        wtouch = set()
                    elif data is None:
                        v, wtouch = FAIL, set()
                    else:
                        if kind == "prg":
                            v, need, touched = judge_prg(data, st == "APPEND", MAX - (state["prg", 0][0] if st == "APPEND" else 0))
                        else:
                            v, need = judge_res(kind, data)
                        wtouch |= touched
                        if wrong_type(kind, data) or st == "APPEND" and v == FAIL:
                            wtouch = set()
                        if fault[0] == 1 or fault[0] == 3 and (fault[1] < 4 or v == OK and fault[1] < need and st != "APPEND"):
                            v = FAIL
                        elif fault[0] == 3 and fault[1] < len(data) and v == OK:
                            v = EITHER
                    if st == "EXEC" and v != FAIL:
                        wtouch = set(state)
                    ck.case((st, kind, fs, hash(data), fault))
                    ck.count("%s_%s" % (st, v))
                op0 = op
                got, gl, paths, gfds = snap()
                if op[0] == "file":
                    e2 = nxt("run")["err"]
                    R = nxt("var")["v"] // 4096
                    if v == FAIL and err not in DOC and (err or R):
                        raise Bad("must fail (%s) but RESULT is %d, error %s" % ("file %s" % (data[:64].hex() if data is not None else fs), R, E.name(err)))
                    if v == OK and st != "EXEC" and (err or not R):
                        raise Bad("must succeed but RESULT is %d, error %s" % (R, E.name(err)))
                    if v == OK and st == "EXEC" and not R and not err:
                        raise Bad("the program was not started: RESULT is 0")
                    if st != "EXEC" and err and err not in DOC:
                        raise Bad("error %s" % E.name(err))
                for x in paths:
                    if not good.fullmatch(x[0] + os.path.normpath(x[1:])) or x[0] == "w" and not saved:
                        raise Bad("accesses %r" % x)
                ck.count("paths_opened", len(paths))
                for x in set(gl) | set(dirl):
                    if gl.get(x) != dirl.get(x) and not (saved and re.fullmatch(r"programs/[A-Za-z0-9_]{1,8}\.PTC", x) and saved in ("any", x[9:-4])) and op[0] != "FILES":
                        raise Bad("file %s changed" % x)
                if gfds != fds:
                    raise Bad("%d file descriptors are open instead of %d" % (gfds, fds))
                for x in got:
                    if got[x] != state[x] and x not in wtouch:
                        raise Bad("%s %s changed" % x)
                state, dirl = got, gl
        except Bad as e:
            ck.violation("%s" % (op[1] if op[0] == "file" else op[0]), "%s: %s\nafter %s" % (str(op)[:300], e, "; ".join(done[:-1])[-500:]), case_text(c)[:200000])
    return ck.finish(min_evals=1000)


if __name__ == "__main__":
    main(run, "C21")
