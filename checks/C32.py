#!/usr/bin/env python3
"""C32: histories of screen, input, file, sprite and clock events with every system variable read in between and compared with a model; every way of assigning to a read-only one; every way of assigning to a writable one; calendar moments under a set clock; date and time texts."""
import datetime, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ref import W
import C24

BIG = 0x7ffff
RO_NUM = ["TRUE", "FALSE", "CANCEL", "VERSION", "MAINCNTL", "MAINCNTH", "FREEVAR", "FREEMEM", "RESULT", "TCHST", "TCHX", "TCHY", "TCHTIME", "CSRX", "CSRY",
          "SPHITNO", "KEYBOARD", "FUNCNO", "ERR", "ERL"]
RO_STR = ["TIME$", "DATE$", "PRGNAME$", "PACKAGE$"]
RW_NUM = ["TABSTEP", "ICONPUSE", "ICONPAGE", "ICONPMAX", "MEMSAFE"]
# what the model knows exactly in a history
NUMS = ["TRUE", "FALSE", "CANCEL", "VERSION", "MAINCNTL", "MAINCNTH", "FREEVAR", "FREEMEM", "RESULT", "TCHST", "TCHX", "TCHY", "TCHTIME", "CSRX", "CSRY", "TABSTEP",
        "SPHITNO", "KEYBOARD", "FUNCNO", "ICONPUSE", "ICONPAGE", "ICONPMAX", "ERR", "MEMSAFE"]
STRS = ["TIME$", "DATE$", "PRGNAME$", "PACKAGE$", "MEM$"]


def moment(rng):
    k = rng.random()
    if k < .5:
        y = rng.choice([1970, 1999, 2000, 2001, 2004, 2009, 2010, 2019, 2038, 2099, 2100, 2999, 3000, 9998, rng.randint(1971, 2105)])
        mo, d = rng.choice([(1, 1), (12, 31), (2, 28), (2, 29), (3, 1), (9, 30), (10, 1), (10, 9), (11, 10), (rng.randint(1, 12), rng.randint(1, 28))])
        if (mo, d) == (2, 29) and not (y % 4 == 0 and (y % 100 or y % 400 == 0)):
            d = 28
        h, m, s = rng.choice([(0, 0, 0), (23, 59, 59), (9, 9, 9), (10, 10, 10), (19, 59, 0), (20, 0, 59), (rng.randrange(24), rng.randrange(60), rng.randrange(60))])
        return int((datetime.datetime(y, mo, d, h, m, s) - datetime.datetime(1970, 1, 1)).total_seconds())
    return rng.randrange(0, 4 * 10**9)


def calendar(t, off):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t + off)
    return "%04d/%02d/%02d" % (d.year, d.month, d.day), "%02d:%02d:%02d" % (d.hour, d.minute, d.second)


def zone(rng):
    h, m = rng.choice([(0, 0), (9, 0), (-5, 0), (5, 30), (-9, 30), (13, 0), (-12, 0), (rng.randint(-12, 13), rng.choice([0, 15, 30, 45]))])
    off = h * 3600 + (m * 60 if h >= 0 else -m * 60)
    a = abs(off)
    return "XXX%s%d:%02d" % ("-" if off > 0 else "", a // 3600, a % 3600 // 60), off


class M:
    def __init__(self, var, arr):
        self.n = dict((v, 0) for v in NUMS)
        self.n.update(TRUE=1, CANCEL=-1, VERSION=0x2020, TABSTEP=4)
        self.known = set(NUMS) - {"ERR", "RESULT", "SPHITNO"}   # what they are before the first event is not stated
        self.s = {"PRGNAME$": None, "PACKAGE$": None, "MEM$": ()}
        self.vars_max, self.elements = var, arr + 2 * var
        self.used = 0
        self.time = 0
        self.panel = C24.Panel()
        self.touch = [0, 0, 0]
        self.files = {}


def val(rng, v):
    """source of a number in fixed point units"""
    return str(v) if v == int(v) else "%g" % v


def number_rw(rng, v):
    """(source, value that must be stored or None where it is not stated, value in effect)"""
    k = rng.random()
    if v == "TABSTEP":
        x = rng.randint(1, 16) if k < .75 else rng.choice([0, -1, -100, 17, 18, 32, 100, 255, 256, 257, 65537, 524287])
        if k > .95:
            x = rng.randint(1, 15) + rng.choice([.25, .5, .75])
        eff = max(1, min(16, int(x)))
        return x, x if x == eff else None, eff
    if v in ("ICONPUSE", "MEMSAFE"):
        x = rng.choice([0, 0, 1, 1, 1, 2, -1, 255, 256, 0.25, -.5, 524287])
        return x, int(x != 0), int(x != 0)
    if v == "ICONPMAX":
        x = rng.choice([0, 1, 2, 3, 9, 10, 255, 256, 1000, 524287, -1, -300, 2.5, 0.75, -.5])
        return x, max(0, int(x)), max(0, int(x))
    x = rng.choice([0, 1, 2, 3, 5, 9, 10, 255, 256, 1000, 524287, -1, -300, 1.5, 0.75, -.5])
    return x, x, x


def assign(rng, v, x):
    """[lines] that give the number x to v, in one of many ways; extra prefix actions"""
    s = val(rng, x)
    plain = x == int(x) and 0 <= x <= 99
    k = rng.randrange(11 if plain else 7)
    if k == 0:
        return ["%s=%s" % (v, s)]
    if k == 1:
        return ["READ %s:DATA %s" % (v, s)]
    if k == 2:
        return ["Q=%s:SWAP Q,%s" % (s, v)]
    if k == 3:
        return ["Q=%s:SWAP %s,Q" % (s, v)]
    if k == 4:
        return ["IF 1 THEN %s=%s ELSE %s=1" % (v, s, v)]
    if k == 5:
        return ["Q[3]=%s:%s=Q[3]" % (s, v)]
    if k == 6:
        return ["Q=%s" % s, "%s=Q" % v]
    if k == 7:
        return ['DTREAD "2001/%02d/07",Q,%s,R' % (x, v)]
    if k == 8:
        return ['TMREAD "12:07:%02d",Q,R,%s' % (x, v)]
    if k == 9:
        return ["SPSET 3,1,0,0,0,0:SPSETV 3,2,%s:%s=SPGETV(3,2)" % (s, v)]
    return ["LOCATE 0,0", "FRAMES %s" % s, "INPUT %s" % v]


def mem_assign(rng, m):
    """(lines, new text) for MEM$; characters a data line and INPUT keep"""
    n = rng.choice([0, 1, 2, 5, 10, 20, 30])
    t = bytes(rng.choice(b"ABCxyz019_#&;") for _ in range(n))
    old = m.s["MEM$"]
    k = rng.randrange(10)
    q = '"%s"' % t.decode()
    if k == 0:
        return ["MEM$=%s" % q], W(t)
    if k == 1:
        return ["READ MEM$:DATA %s" % q], W(t)
    if k == 2:
        return ["Q$=%s:SWAP Q$,MEM$" % q], W(t)
    if k == 3:
        return ["Q$=%s:SWAP MEM$,Q$" % q], W(t)
    if k == 4 and len(old) + n <= 256:
        return ["MEM$=MEM$+%s" % q], old + W(t)
    if k == 5:
        a = rng.randint(0, max(0, len(old)))
        return ["MEM$=LEFT$(MEM$,%d)" % a], old[:a]
    if k == 6:
        return ["A$=MEM$:MEM$=%s:A$=A$+\"zz\"" % q], W(t)
    if k == 7:
        return ["A$=%s:MEM$=A$:A$=\"other\"" % q], W(t)
    if k == 8 and n:
        return ["LOCATE 0,0", "FRAMES " + t.decode(), "LINPUT MEM$"], W(t)
    return ["Q$[2]=%s:MEM$=Q$[2]:Q$[2]=\"\"" % q], W(t)


def lines(acts, src):
    """source lines to actions: FRAMES gives keys to the input that follows"""
    n = 0
    for l in src:
        if l.startswith("FRAMES "):
            acts += ["inkeys", "testmode 1", "key " + " ".join("%04x" % W(bytes([b]))[0] for b in l[7:].encode()) + " 000d"]
        else:
            acts.append(direct(l + "\r"))
            n += 1
    return n


FORMS = ["{0}={1}", "{0}={1}+0", "{0}=-(-{1})", "{0}=0:{0}={0}+{1}", "Q[7]={1}:{0}=Q[7]", "{0}=-1:IF 1 THEN {0}={1}", "{0}={1}*1", "GOSUB @A:END\r@A\r{0}={1}:RETURN\r", "{0}=ABS({1})*SGN({1})"]
SFORMS = ["{0}={1}", "{0}={1}+\"\"", "{0}=\"\"+{1}", "Q$[1]={1}:{0}=Q$[1]", "{0}=MID$({1},0,256)", "{0}=RIGHT$({1},256)"]


def fname(rng):
    return "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") for _ in range(rng.randint(1, 8)))


def history(rng, cid, rounds):
    var, arr = rng.choice([(2048, 262144), (2048, 262144), (64, 4000), (128, 100000)])
    m = M(var, arr)
    acts = ["sys %d 4096 %d" % (var, arr), "fs 1"]
    want = []
    t, (tz, off) = moment(rng), zone(rng)
    acts.append("clock %d %s" % (t, tz))

    def run(src, what, err=0):
        n = lines(acts, src)
        for i in range(n):
            want.append(("run", what, 0 if i < n - 1 else err))

    # the variables the check uses: from here on only new ones count
    run(["DIM Q[20]:DIM Q$[5]:Q=0:R=0:S=0:T=0:Z=0:A$=\"\":Q$=\"\":Z$=\"\":B=0:X=0:Y=0:I=0"], "setup")
    m.used = 20 + 2 + 5 + 2
    dims = 0
    for _ in range(rounds):
        k = rng.random()
        if k < .08:
            n = rng.choice([1, 1, 2, 59, 60, 1000, rng.randint(1, 5000), 70000, 524287, 524288, 524289, (1 << 31) - 3, 1 << 32, (1 << 38) - 700, 1 << 40])
            if m.time + n < 5 * 10**6 or n > 600000:
                m.time += n
                acts.append("time %d" % n)
        elif k < .13:
            t, (tz, off) = moment(rng), zone(rng)
            acts.append("clock %d %s" % (t, tz))
        elif k < .3:
            for tt, x, y, n in ([(rng.randrange(2), rng.choice([0, 255, rng.randrange(256)]), rng.choice([0, 191, rng.randrange(192)]), rng.choice([1, 1, 2, 5, 31, 100]))] if rng.random() < .5 else C24.history(rng)):
                if C24.key_at(x, y) == 1:
                    continue
                acts.append("touch %d %d %d %d" % (tt, x, y, n))
                for _ in range(n):
                    m.panel.frame(tt, x, y)
                m.touch = [m.touch[0] + n, x, y] if tt else [0] + m.touch[1:]
        elif k < .42:
            x, y = rng.choice([0, 31, rng.randrange(32)]), rng.choice([0, 22, rng.randrange(23)])
            txt = "".join(rng.choice("ABC12") for _ in range(rng.choice([0, 1, 3, 10, 40])))
            end = rng.choice(["", ";", ";", ","])
            run(["LOCATE %d,%d:PRINT \"%s\"%s" % (x, y, txt, end)] if rng.random() < .85 else ["CLS" if rng.random() < .3 else "LOCATE %d,%d" % (x, y)], "console")
        elif k < .56:
            v = rng.choice(RW_NUM)
            x, stored, eff = number_rw(rng, v)
            src = assign(rng, v, x)
            while m.touch[0] and any(l.startswith("FRAMES") for l in src):   # a held DEL key takes the typed text away again
                src = assign(rng, v, x)
            p = rng.randrange(0, 30)
            tab = "LOCATE %d,0:PRINT \"A\",:X=CSRX:Y=CSRY" % p
            # the same line or program goes on to use it
            nxt = tab if v == "TABSTEP" else "X=%s" % v
            joined = rng.random() < .6 and "DATA" not in src[-1] and "ELSE" not in src[-1] and "INPUT" not in src[-1]
            if joined:
                src[-1] = rng.choice(["{0}:{1}", "{0}\r{1}", "IF 1 THEN {0}:{1}", "IF 1 THEN {0}:GOTO @AA\rEND\r@AA\r{1}", "GOSUB @BB:{1}:END\r@BB\r{0}:RETURN",
                                      "FOR I=1 TO 2:{0}:NEXT:{1}", "IF 0 THEN ELSE {0}:{1}", "ON 0 GOTO @CC\r@CC:{0}\r{1}"]).format(src[-1], nxt)
                if "FOR I" in src[-1] and "SWAP" in src[-1] and not src[-1].split("FOR I=1 TO 2:")[1].startswith("Q="):
                    src[-1] = src[-1].replace("TO 2", "TO 1")
            run(src, "%s=%s" % (v, x))
            if joined and v != "TABSTEP":
                now = {"ICONPUSE": eff, "MEMSAFE": eff, "ICONPMAX": stored}.get(v)
                if v == "ICONPAGE":
                    now = max(0, min(int(x), m.panel.pmax))
                acts.append("var X")
                want.append(("num", "X", now, "%s read in the statement after %s=%s" % (v, v, x)))
            if v == "TABSTEP":
                m.n[v] = stored
                if not joined:
                    run([tab], "tab")
                e = p + 1 + (eff - (p + 1) % eff)
                want += [("num", "X", e % 32 if e >= 32 else e, "position behind PRINT \"A\", from column %d with TABSTEP=%s" % (p, x))] if e <= 31 else []
                acts += ["var X"] if e <= 31 else []
            elif v == "ICONPUSE":
                m.panel.use = eff
                m.n[v] = stored
            elif v == "ICONPMAX":
                m.panel.pmax = m.n[v] = stored
                if m.panel.page > stored:
                    m.panel.page = rng.randint(0, min(stored, 9))
                    run(["ICONPAGE=%d" % m.panel.page], "ICONPAGE")
            elif v == "ICONPAGE":
                m.panel.page = max(0, min(int(x), m.panel.pmax))
            else:
                m.n[v] = stored
                if stored:
                    run(["Q=PEEKB(%s)" % rng.choice(["-1", "-524287", "0-1/4096"])], "PEEK of an address outside with MEMSAFE=%s" % x, "some")
            if v.startswith("ICON"):
                acts.append("panel")
                want.append(("icons", (m.panel.use, m.panel.pmax, m.panel.page), "%s=%s" % (v, x)))
        elif k < .64:
            src, new = mem_assign(rng, m)
            while m.touch[0] and any(l.startswith("FRAMES") for l in src):
                src, new = mem_assign(rng, m)
            run(src, src[-1])
            m.s["MEM$"] = new
        elif k < .72 and dims < 12:
            dims += 1
            n = rng.choice([1, 100, 128, 1000, 5000, rng.randint(1, 40000)])
            if m.used + n + 2 < m.elements - 8 and m.vars_max > 30 + dims:
                m.used += n + 2
                two = n % 100 == 0 and rng.random() < .5
                run(["DIM V%d%s[%s]" % (dims, rng.choice(["", "$"]), "%d,100" % (n // 100) if two else n)], "DIM")
            elif m.used + n + 2 >= m.elements + 8:
                run(["DIM V%d[%d]" % (dims, n)], "DIM of %d elements" % n, E.OUT_OF_MEMORY)
        elif k < .76:
            run(["W%d=1" % rng.randrange(8)], "variable")
        elif k < .86:
            src, err = rng.choice([("A=1/0", E.DIVIDE_BY_ZERO), ("Q=SQR(-1)", "some"), ("LOCATE 1,", "some"), ("GOTO @NOWHERE", "some"), ("READ Q", E.OUT_OF_DATA), ("RETURN", E.RETURN_WITHOUT_GOSUB),
                                   ("NEXT", E.NEXT_WITHOUT_FOR), ("Q=Q[20]", "some"), ("SPSET 200,1,0,0,0,0", E.OUT_OF_RANGE), ("Q=\"A\"+1", "some"), ("Q=ASC(\"\")", "some"), ("Q$=CHR$(300)", "some"), ("STOP", None), ("TIME$=\"1\"", "some"), ("CSRX=3", "some")])
            run([src], src, err)
        elif k < .91:
            n = rng.sample(range(100), 2)
            x, y = rng.randrange(200), rng.randrange(150)
            hit = rng.random() < .6
            run(["SPCLR:SPSET %d,1,0,0,0,0:SPSET %d,1,0,0,0,0" % tuple(n), "SPOFS %d,%d,%d:SPOFS %d,%d,%d" % (n[0], x, y, n[1], x + rng.randint(0, 15) if hit else x + 40, y),
                 "Q=SPHIT(%d)" % n[0]], "SPHIT")
            if hit:
                m.n["SPHITNO"] = n[1]
                m.known.add("SPHITNO")
            else:
                m.known.discard("SPHITNO")
        else:
            kind = rng.choice(["save", "load", "load", "miss", "prg", "prg", "package", "wrong"])
            f = fname(rng)
            if kind == "save":
                ty = rng.choice(["MEM", "GRP0", "SCU0", "BGU0", "COL0"])
                run(["SAVE \"%s:%s\"" % (ty, f)], "SAVE")
                m.n["RESULT"] = 1
                m.known.add("RESULT")
                m.files[f] = ty
                if ty == "MEM":
                    m.files[f] = (ty, m.s["MEM$"])
            elif kind in ("load", "wrong") and m.files:
                f, ty = rng.choice(sorted(m.files.items(), key=str))
                name = ty if isinstance(ty, str) else ty[0]
                if kind == "wrong":
                    other = rng.choice([x for x in ("MEM", "GRP0", "SCU0", "BGU0", "COL0") if x != name])
                    run(["LOAD \"%s:%s\"" % (other, f)], "LOAD of a file of another type")
                    m.n["RESULT"] = 0
                    m.known.add("RESULT")
                else:
                    run(["LOAD \"%s:%s\"" % (name, f)], "LOAD")
                    m.n["RESULT"] = 1
                    m.known.add("RESULT")
                    if name == "MEM":
                        m.s["MEM$"] = ty[1]
            elif kind == "miss":
                f = "NO" + f[:6]
                if f not in m.files:
                    run(["%s \"%s%s\"" % (rng.choice(["LOAD", "LOAD", "EXEC", "APPEND"]), "", f)] if rng.random() < .5 else ["LOAD \"%s:%s\"" % (rng.choice(["MEM", "GRP1", "BGU1", "COL1"]), f)], "LOAD of a missing file")
                    m.n["RESULT"] = 0
                    m.known.add("RESULT")
            elif kind in ("prg", "package"):
                acts.append("prgset " + hx(b"'\r"))
                if f not in m.files:
                    run(["SAVE \"PRG:%s\"" % f, "LOAD \"PRG:%s\"" % f], "LOAD of a program")
                    m.s["PRGNAME$"] = W(f.encode())
                    m.s["PACKAGE$"] = W(b"0")
                    m.n["RESULT"] = 1
                    m.known.add("RESULT")
                    m.files.pop(f, None)
        # ---- read everything, or a part of it
        m.n.update(MAINCNTL=m.time & BIG, MAINCNTH=m.time >> 19 & BIG, TCHST=int(m.touch[0] > 0), TCHX=m.touch[1], TCHY=m.touch[2], TCHTIME=m.touch[0],
                   ICONPUSE=m.panel.use, ICONPMAX=m.panel.pmax, ICONPAGE=m.panel.page, FREEMEM=(m.elements - m.used) * 8 // 1024,
                   KEYBOARD=m.panel.query()[0], FUNCNO=m.panel.query()[1])
        date, clock = calendar(t, off)
        m.s.update({"DATE$": W(date.encode()), "TIME$": W(clock.encode())})
        ask = rng.sample(NUMS, rng.choice([4, 8, len(NUMS)])) + rng.sample(STRS, rng.choice([1, 2, 5]))
        acts += ["con", "vars"]
        want += [("con",), ("vars",)]
        for v in ask:
            s = v.endswith("$")
            f = rng.choice(SFORMS if s else FORMS) if rng.random() < .5 else "{0}={1}"
            src = f.format("Z$" if s else "Z", v)
            acts += [direct(src if src.endswith("\r") else src + "\r"), "var " + ("Z$" if s else "Z")]
            want += [("run", src, 0), ("sys", v, m.s[v] if s else (m.n[v] if v in m.known else None), src)]
    acts += [direct("R=0\r"), "pool"]
    return Case(cid, acts, ("history", want, m))


def judge_history(ck, c, r):
    _, want, m = c.meta
    obs = iter([o for o in r.obs if o.get("t") in ("run", "con", "vars", "var", "panel")])
    con, vcount, err = None, None, None
    for w in want:
        o = next(obs, None)
        kind = {"run": "run", "con": "con", "vars": "vars", "num": "var", "sys": "var", "icons": "panel"}[w[0]]
        if o is None or o["t"] != kind:
            ck.violation("lost", "observations ended before %r (%r)" % (w, o), case_text(c))
            return
        if w[0] == "con":
            con = o
        elif w[0] == "vars":
            vcount = o["count"]
        elif w[0] == "run":
            if o["err"]:
                err = o["err"]
            if w[2] is None:
                continue
            ok = o["err"] != 0 and o["err"] < 9999 if w[2] == "some" else o["err"] == w[2]
            if not ok:
                ck.violation("run-" + w[1].split("=")[0].split(" ")[0][:12], "%s ended with %s, expected %s" % (w[1], E.name(o["err"]), "an error" if w[2] == "some" else E.name(w[2])), case_text(c)[:60000])
                return
        elif w[0] == "num":
            if o["v"] != w[2] * 4096:
                ck.violation("effect-" + w[1], "%s: %s, expected %s" % (w[3], o["v"] / 4096 if o["v"] is not None else None, w[2]), case_text(c)[:60000])
                return
        elif w[0] == "icons":
            s = C24.snap_of(o)
            if s["pages"] != w[1] or s["pagekeys"] != bool(w[1][0]):
                ck.violation("effect-icons", "after %s the panel has (ICONPUSE, ICONPMAX, ICONPAGE) %s and page icons %s, expected %s" % (w[2], s["pages"], s["pagekeys"], w[1]), case_text(c)[:60000])
                return
        else:
            v, e = w[1], w[2]
            got = uns(o["v"]) if v.endswith("$") else o["v"]
            if v == "CSRX":
                e = con["x"]
            elif v == "CSRY":
                e = con["y"]
            elif v == "FREEVAR":
                e = m.vars_max - vcount
            elif v == "ERR":
                e = err
            ck.case((v, e, w[3]), e is not None)
            ck.count("read_" + v)
            if e is None:
                continue
            if v.endswith("$"):
                if got != e:
                    ck.violation("value-" + v, "%s: %r, expected %r" % (w[3], "".join(map(chr, got or ())), "".join(map(chr, e))), case_text(c)[:60000])
                    return
            elif got != e * 4096 and not (v == "FREEMEM" and abs(got - e * 4096) <= 4096):
                ck.violation("value-" + v, "%s: %s, expected %s" % (w[3], got / 4096 if got is not None else None, e), case_text(c)[:60000])
                return


# ---------------------------------------------------------------- read-only variables
def contexts(v):
    s = v.endswith("$")
    c, t = ('"x"', "Z$") if s else ("7", "Z")
    yield "%s=%s" % (v, c), ""
    yield "READ %s:DATA 5" % v, ""
    yield "READ Z,%s:DATA 5,6" % v, ""
    yield "SWAP %s,%s" % (v, t), t
    yield "SWAP %s,%s" % (t, v), t
    yield "SWAP %s,%s" % (v, v), ""
    yield "IF 1 THEN %s=%s" % (v, c), ""
    yield "INPUT %s" % v, ""
    yield "INPUT \"Q\";%s" % v, ""
    yield "FOR %s=1 TO 2:NEXT" % v, ""
    yield "%s=%s+%s" % (v, v, c), ""
    if s:
        yield "LINPUT %s" % v, ""
        yield "LINPUT \"Q\";%s" % v, ""
        yield 'CHRREAD ("BGU0",0),%s' % v, ""
    else:
        for f in ('DTREAD "2000/01/02",{0},Q,R', 'DTREAD "2000/01/02",Q,{0},R', 'DTREAD "2000/01/02",Q,R,{0}', 'TMREAD "01:02:03",{0},Q,R', 'TMREAD "01:02:03",Q,{0},R',
                  'TMREAD "01:02:03",Q,R,{0}', "SPREAD(5),{0}", "SPREAD(5),Q,{0}", "SPREAD(5),Q,R,{0}", "SPREAD(5),Q,R,S,{0}", "SPREAD(5),Q,R,S,T,{0}",
                  'COLREAD ("BG",0),{0},Q,R', 'COLREAD ("BG",0),Q,{0},R', 'COLREAD ("BG",0),Q,R,{0}', "BGREAD (0,0,0),{0},Q,R,S", "BGREAD (0,0,0),Q,{0},R,S",
                  "BGREAD (0,0,0),Q,R,{0},S", "BGREAD (0,0,0),Q,R,S,{0}", "BGREAD (0,0,0),{0}", "NEXT {0}", "{0}=({0}=7)", "Q=({0}=5)"):
            yield f.format(v), ""


READ_ALL = ["N[%d]=%s" % (i, v) for i, v in enumerate(RO_NUM) if v != "ERR"] + ["N$[%d]=%s" % (i, v) for i, v in enumerate(RO_STR)]


def snapshot(acts):
    for i in range(0, len(READ_ALL), 5):
        acts.append(direct(":".join(READ_ALL[i:i + 5]) + "\r"))
    acts += ["arr N", "arr N$"]


def readonly(rng):
    for v in RO_NUM + RO_STR:
        for i, (src, other) in enumerate(contexts(v)):
            for j, wrap in enumerate(("%s", "Q=1:%s:B=1", "@L:%s")):
                if j and rng.random() < .6:
                    continue
                acts = ["sys", "clock 1000000007 UTC0", direct("DIM N[30]:DIM N$[5]:Z=77:Z$=\"zz\":Q=0:R=0:S=0:T=0:B=0\r"), direct("SPSET 5,60,0,0,0,0:SPOFS 5,33,44:LOCATE 4,5:Q=1/0\r"),
                        "time 777", "touch 1 100 60 5", "touch 0 0 0 1"]
                snapshot(acts)
                k = len([a for a in acts if a.startswith("direct")])
                # an INPUT that is not refused gets an answer
                acts += ["testmode 1", "key 0037 000d 0038 000d", direct(wrap % src + "\r"), "var Z", "var Z$", "var B"]
                snapshot(acts)
                yield Case("ro-%s-%d-%d" % (v.replace("$", "S"), i, j), acts, ("ro", v, wrap % src, k))


def judge_ro(ck, c, r):
    _, v, src, k = c.meta
    runs, arrs = r.all("run"), r.all("arr")
    ck.case((v, src))
    ck.count("readonly_attempts")
    if not runs[k]["err"] or runs[k]["err"] >= 9999:
        ck.violation("accepted-%s" % v, "%s ended with %s" % (src, E.name(runs[k]["err"])), case_text(c))
    elif arrs[0]["v"] != arrs[2]["v"] or arrs[1]["v"] != arrs[3]["v"]:
        if "PUT" in src:   # an INPUT that fails late has moved the cursor
            a, b = list(arrs[0]["v"]), list(arrs[2]["v"])
            for n in ("CSRX", "CSRY"):
                a[RO_NUM.index(n)] = b[RO_NUM.index(n)] = 0
            if a == b and arrs[1]["v"] == arrs[3]["v"]:
                return
        ch = [n for n, a, b in zip(RO_NUM, arrs[0]["v"], arrs[2]["v"]) if a != b] + [n for n, a, b in zip(RO_STR, arrs[1]["v"], arrs[3]["v"]) if a != b]
        ck.violation("changed-%s" % v, "%s (%s) changed %s" % (src, E.name(runs[k]["err"]), ch), case_text(c))
    else:
        z, zs, b = [o["v"] for o in r.all("var")][:3]
        if b or "SWAP" in src and (z != 77 * 4096 or uns(zs) != W(b"zz")):
            ck.violation("went-on-%s" % v, "%s (%s): Z=%s Z$=%s B=%s" % (src, E.name(runs[k]["err"]), z, zs, b), case_text(c))


# ---------------------------------------------------------------- texts
def texts(rng, n):
    for _ in range(n):
        date = rng.random() < .5
        base = "%04d/%02d/%02d" % (rng.choice([0, 1, 1999, 2000, 9999, rng.randrange(10000)]), rng.randrange(100), rng.randrange(100)) if date else \
            "%02d:%02d:%02d" % (rng.randrange(100), rng.randrange(100), rng.randrange(100))
        if rng.random() < .4:
            base = rng.choice(["2011/07/02", "2000/12/31", "1234/56/78", "0000/00/00", "9999/99/99"] if date else ["12:34:56", "23:59:59", "00:00:00", "99:99:99"])
        t = bytearray(base.encode())
        k = rng.random()
        if k < .4:
            pass
        elif k < .7:
            i = rng.randrange(len(t))
            t[i] = rng.choice(b"/:0123456789") if rng.random() < .5 else rng.choice([b for b in range(1, 256) if b not in (13, 34)])
        elif k < .78:
            del t[rng.randrange(len(t))]
        elif k < .86:
            t.insert(rng.randrange(len(t) + 1), rng.choice(b"0129/: -"))
        elif k < .9:
            t = t[:rng.randrange(len(t))]
        elif k < .95:
            t = bytearray(("%d/%d/%d" if date else "%d:%d:%d") % (rng.randrange(3000), rng.randrange(13), rng.randrange(32)), "ascii")
        else:
            t = bytearray(bytes(rng.choice(b"0123456789/:") for _ in range(rng.choice([0, 1, 7, 8, 8, 9, 10, 10, 11, 40]))))
        yield date if rng.random() < .93 else not date, bytes(t)


def split(date, t):
    import re as _re
    g = _re.fullmatch(rb"(\d{4})/(\d\d)/(\d\d)" if date else rb"(\d\d):(\d\d):(\d\d)", t)
    return [int(x) for x in g.groups()] if g else None


def text_case(rng, cid, n):
    acts, want = ["sys", direct("DIM Q[9]:DIM Q$[3]:X=0:Y=0:Z=0:A$=\"\"\r")], []
    for date, t in texts(rng, n):
        out = ["X", "Y", "Z"]
        if rng.random() < .25:
            rng.shuffle(out)
        tgt = [rng.choice([o, o, o, "Q[%d]" % i]) for i, o in enumerate(out)]
        lit = '"%s"' % t.decode("latin-1")
        how = rng.randrange(5)
        pre, arg = "X=-1:Y=-2:Z=-3", lit
        if how == 1:
            arg = "A$"
            pre2 = "A$=" + lit
        elif how == 2:
            i = rng.randint(0, len(t))
            pre2, arg = "", '"%s"+"%s"' % (t[:i].decode("latin-1"), t[i:].decode("latin-1"))
        elif how == 3:
            pre2, arg = "Q$[1]=" + lit, "Q$[1]"
        elif how == 4 and t and 0x30 <= t[-1] <= 0x39:
            # the last character typed: a text of wide characters
            acts.append("key %04x" % W(t[-1:])[0])
            pre2, arg = 'A$="%s"+INKEY$' % t[:-1].decode("latin-1"), "A$"
        else:
            pre2 = ""
        stmt = "%s %s,%s" % ("DTREAD" if date else "TMREAD", arg, ",".join(tgt))
        acts += [direct(pre + ":" + ":".join("Q[%d]=-%d" % (i, i + 5) for i in range(3)) + "\r")] + ([direct(pre2 + "\r")] if pre2 else []) + [direct(stmt + "\r"), "var X", "var Y", "var Z", "arr Q"]
        e = split(date, t)
        vals = {"X": -1, "Y": -2, "Z": -3, "Q[0]": -5, "Q[1]": -6, "Q[2]": -7}
        if e:
            vals.update(zip(tgt, e))
        want.append((2 if pre2 else 1, stmt, e is not None, vals, t))
    acts += [direct("R=0\r"), "pool"]
    return Case(cid, acts, ("text", want))


def judge_text(ck, c, r):
    runs, vs, arrs = r.all("run")[1:], [o["v"] for o in r.all("var")], r.all("arr")
    p = 0
    for i, (n, stmt, ok, vals, t) in enumerate(c.meta[1]):
        u = runs[p + n]
        p += n + 1
        got = dict(zip(("X", "Y", "Z"), vs[3 * i:3 * i + 3]))
        got.update(("Q[%d]" % j, arrs[i]["v"][j]) for j in range(3))
        ck.case((stmt.split(" ")[0], t, tuple(sorted(vals.items()))))
        ck.count("texts_split" if ok else "texts_refused")
        if bool(u["err"]) == ok:
            ck.violation("text-" + stmt[:6], "%s with %r: %s" % (stmt, t, E.name(u["err"])), case_text(c)[:40000])
            return
        bad = [k for k in vals if got[k] != vals[k] * 4096]
        if bad:
            ck.violation("fields-" + stmt[:6], "%s with %r (%s): %s is %s, expected %s" % (stmt, t, E.name(u["err"]), bad[0], got[bad[0]] / 4096, vals[bad[0]]), case_text(c)[:40000])
            return


# ---------------------------------------------------------------- while time passes
def frame_case(rng, cid):
    """a program that reads counters in every frame of a script"""
    n = rng.choice([20, 40])
    script, ref, tt, tm = [], [], [0, 0, 0], 0
    on, x, y = False, 0, 0
    base = rng.choice([0, 1, 1000, 524287 - 7, 524288 * 3 - 5, (1 << 31) - 9, (1 << 32) - 8, (1 << 38) - 5])
    for _ in range(n):
        if rng.random() < .25:
            on = not on
        if rng.random() < .5:
            x, y = rng.randrange(256), rng.choice([17, 20, 30, 45])  # above the keys
        script.append("t%d,%d" % (x, y) if on else "")
        tt = [tt[0] + 1, x, y] if on else [0] + tt[1:]
        tm += 1
        v = base + tm
        ref.append((v & BIG, v >> 19 & BIG, int(tt[0] > 0), tt[1], tt[2], tt[0]))
    src = "DIM N[100,6]\rI=0\r@L\rVSYNC 1\rN[I,0]=MAINCNTL:N[I,1]=MAINCNTH:N[I,2]=TCHST:N[I,3]=TCHX:N[I,4]=TCHY:N[I,5]=TCHTIME\rI=I+1\rIF I<%d GOTO @L\r" % n
    return Case(cid, ["sys", "time %d" % base, "frames " + ";".join(s or "-" for s in script), prg(src, 0, 8000), "arr N", "flog"], ("frames", ref, script))


def judge_frames(ck, c, r):
    _, ref, script = c.meta
    u, a, f = r.get("run"), r.get("arr"), r.get("flog")
    if u["err"] or a["v"] is None:
        ck.violation("frames", "the program ended with %s" % E.name(u["err"]), case_text(c))
        return
    if f["n"] != len(ref):
        ck.inconclusive += 1
        return
    for i, e in enumerate(ref):
        got = tuple(a["v"][i + a["d1"] * j] / 4096 for j in range(6))
        ck.case(("frame", e), True)
        if got != e:
            ck.violation("frames", "frame %d of %s: MAINCNTL, MAINCNTH, TCHST, TCHX, TCHY, TCHTIME are %s, expected %s" % (i, script, got, e), case_text(c))
            return
    ck.count("frames_read", len(ref))


def freevar_part(ck, binp):
    """FREEVAR through programs that create variables of all types, CLEAR and create them again"""
    rng, cases = ck.rng, []
    for i in range(ck.n(150, 2000)):
        opts, lim = rng.choice([0, 2]), rng.choice([64, 128, 256])
        src, have = [], set()
        names = ["%s%s" % (rng.choice("ABCDEFGH"), rng.choice(["", "1", "X", "_9"])) for _ in range(8)]
        marks = []
        for _ in range(rng.randint(3, 25)):
            n, t = rng.choice(names), rng.choice(["", "$", "[]", "$[]"])
            if rng.random() < .12:
                src.append("CLEAR")
                have = set()
            elif t.endswith("[]"):
                if n + t in have:
                    continue
                src.append("DIM %s[%d]" % (n + t[:-2], rng.randint(1, 4)) if rng.random() < .6 else "%s[1]=%s" % (n + t[:-2], '""' if "$" in t else 0))
                have.add(n + t)
            else:
                src.append("%s=%s" % (n + t, '"q"' if t else 3))
                have.add(n + t)
            if rng.random() < .4:
                src.append("PRINT FREEVAR;\"_\";")
                marks.append(len(have))
        src.append("PRINT FREEVAR;\"_\";")
        marks.append(len(have))
        cases.append(Case("v%d" % i, ["sys %d 64 1024" % lim, prg("\r".join(src) + "\r", opts), "con", "vars"], (src, opts, [lim - m for m in marks], lim)))
    res = run_cases(binp, cases)
    for c in cases:
        src, opts, want, lim = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        t = "".join(chr(x) if x < 128 else chr(x - 0xfee0) for x in uns(r.get("con")["text"]))
        got = [x for x in t.replace("\0", " ").split("_")][:len(want)]
        if opts:      # variables exist from the translation on; only the last value is compared, with the slots in use
            got, want = got[-1:], [lim - len(r.get("vars")["v"])]
        ck.case(("freevar", tuple(src), opts))
        ck.count("freevar_programs")
        if r.get("run")["err"] or [x.strip() for x in got] != [str(x) for x in want]:
            ck.violation("freevar", "FREEVAR was %s, should be %s (%s, options %d)\n%s" % (got, want, E.name(r.get("run")["err"]), opts, "\n".join(src)), case_text(c))


def run():
    ck = Check("C32")
    ck.rule = "non-trivial: a system variable read after an event and compared with the model, a refused assignment with all read-only variables compared, or a text split or refused"
    rng = ck.rng
    binp = build("asan")
    cases = [history(rng, "h%d" % i, rng.choice([10, 20, 30])) for i in range(ck.n(260, 3500))]
    cases += list(readonly(rng))
    cases += [text_case(rng, "t%d" % i, 25) for i in range(ck.n(60, 900))]
    cases += [frame_case(rng, "f%d" % i) for i in range(ck.n(24, 300))]
    res = run_cases(binp, cases, cpu=60)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        {"history": judge_history, "ro": judge_ro, "text": judge_text, "frames": judge_frames}[c.meta[0]](ck, c, r)
        p = r.get("pool")
        if p and p["bad"]:
            ck.violation("pool", p["why"], case_text(c)[:40000])
    freevar_part(ck, binp)
    ck.sample({"cases": len(cases)})
    return ck.finish(3000)


if __name__ == "__main__":
    main(run, "C32")
