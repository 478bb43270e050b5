#!/usr/bin/env python3
"""C26: PEEK, POKE, MEMCOPY, MEMFILL and ADDR with MEMSAFE set, judged against the interpreter's whole memory block before and after every statement; AddressSanitizer guards both ends of it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mini import *
import C14
from C20 import slot, ALL, NCOL, NCHR, CHRBASE

BASE, END = 0x02000000, 8 << 20
WIDTH = {"": 4, "H": 2, "B": 1}
CALL, NULL, ADDRESS, OFFSET = E.ILLEGAL_FUNCTION_CALL, E.NULL_ADDRESS, E.ILLEGAL_ADDRESS, E.ILLEGAL_OFFSET


def raw_expr(rng, r):
    """expression of the raw number r"""
    hi, lo = r >> 12, r & 4095
    if hi < -524287:
        return "-524287-1+%d/4096" % lo
    if not lo:
        return str(hi)
    return "%d+%d/4096" % (hi, lo)


def address(rng, mp, width=1, n=None):
    """raw address: inside zones that may be written, at the ends of the block, or outside"""
    k = rng.random()
    if k < .5:
        return BASE + inside(rng, mp, n or width)
    if k < .65:
        return BASE + END + rng.choice([-8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 8, 4096])
    if k < .75:
        return BASE + rng.choice([-8, -5, -4, -3, -2, -1, -1, -4096])
    if k < .8:
        return 0
    if k < .9:
        return rng.choice([1, -1, 4, 4096, -4096, 0x01ffffff, 0x7fffffff, 0x7ffffffc, -0x80000000, -0x7ffff000, 0x03000000, 0x10000000, 0x02800000, 0x027fffff])
    return wrap32(rng.getrandbits(32))


def zones(mp):
    return [(k, v) for k, v in mp.items() if k[:3] in ("chr", "scr", "grp", "col") and isinstance(v, list)]


def inside(rng, mp, n=1):
    """offset of a place to write n bytes"""
    z = zones(mp)
    for _ in range(50):
        o, s = rng.choice(z)[1]
        if s >= n:
            return o + rng.choice([0, s - n, rng.randint(0, s - n), rng.randint(0, s - n)])
    return mp["grp0"][0]


def value(rng):
    r = rng.choice([0, 1, -1, 4096, 255 << 12, 256 << 12, 65535 << 12, 65536 << 12, 128 << 12, 32768 << 12, 0x7fffffff, -0x7ffff000, rng.getrandbits(32), rng.getrandbits(20) << 12])
    return wrap32(r)


def run():
    ck = Check("C26")
    ck.rule = "statement x address class (inside, first and last items, before, behind, null, wild) x width or size x value; distinct = statement; every byte of the block outside the interpreter's own stacks is compared after every statement"
    rng = ck.rng
    binp = build("asan")
    mp = run_cases(binp, [Case("m", ["sys 2048 4096 262144 0", "memmap"])])["m"].get("memmap")
    if not mp:
        raise HarnessError("no memory map")
    cases = []
    # every name at the edges of its size
    for n in INTERNAL + ALL:
        acts, meta = ["sys 2048 4096 262144 0", direct("MEMSAFE=1\r"), "memwatch"], []
        s = mp[n][1] if n[0] == "!" else SIZES[slot(n, NOPAGE)[0]]
        for o in (None, 0, 1, s - 1, s, s + 1, -1, s + 4096, 524287):
            a, m = addr_of(n, o, NOPAGE, mp)
            acts += a
            meta.append(m)
        cases.append(Case("n%d" % len(cases), acts, meta))
    for k in range(ck.n(1800, 30000)):
        acts = ["sys 2048 4096 262144 0"]
        for z in ("chr0", "grp0", "grp3", "scr2", "col0", "chr43"):
            acts.append("memseed %d %d %d" % (mp[z][0], mp[z][1], rng.randrange(1 << 30)))
        acts.append("memseed %d %d %d" % (END - 4096, 4096, rng.randrange(1 << 30)))
        acts.append(direct("MEMSAFE=%s\r" % rng.choice(["1", "1", "TRUE", "5", "-1"])))
        acts.append("memwatch")
        meta = []
        for _ in range(rng.randint(2, 6)):
            k = rng.random()
            if k < .3:
                w = rng.choice(list(WIDTH))
                a, v = address(rng, mp, WIDTH[w]), value(rng)
                acts += ["memget %d 4" % (a - BASE), direct("POKE%s %s,%s\r" % (w, raw_expr(rng, a), raw_expr(rng, v))), "memwatch", "memget %d %d" % (a - BASE, WIDTH[w])]
                meta.append(("poke", w, a, v))
            elif k < .5:
                w = rng.choice(list(WIDTH))
                a = address(rng, mp, WIDTH[w])
                if rng.random() < .1:
                    a = BASE + rng.choice([0, 1, 2, 3])
                acts += ["memget %d %d" % (a - BASE, WIDTH[w]), direct("V=-7:V=PEEK%s(%s)\r" % (w, raw_expr(rng, a))), "var V", "memwatch"]
                meta.append(("peek", w, a))
            elif k < .65:
                n = rng.choice([0, 1, 2, 255, 256, 4096, 8192, 49152, rng.randint(0, 60), rng.randint(0, 9000), -1, 524287, 300000])
                d = address(rng, mp, 1, max(n, 1)) if n < 49152 else rng.choice([BASE + mp["grp0"][0], BASE + END - n, BASE + END - n - rng.randint(0, 5), BASE + END - rng.randint(0, 9), address(rng, mp)])
                if rng.random() < .15:
                    d = BASE + END - max(n, 0) + rng.randint(-4, 3)
                if not safe(mp, d, n):
                    d = BASE + mp["grp0"][0]
                    n = min(n, 4 * 49152)
                v = rng.choice([0, 7, 255, 256, -1, 300, rng.randrange(256)])
                acts += [direct("MEMFILL %s,%d,%d\r" % (raw_expr(rng, d), v, n)), "memwatch", "memget %d %d" % (d - BASE, n if n <= 100000 else 0)]
                meta.append(("fill", d, v, n))
            elif k < .82:
                n = rng.choice([0, 1, 2, 255, 256, 4096, 8192, rng.randint(0, 60), rng.randint(0, 9000), -1, 524287, 20000])
                m = max(n, 1)
                s, d = address(rng, mp, 1, m), address(rng, mp, 1, m)
                if rng.random() < .25:  # overlapping or adjacent
                    s = BASE + inside(rng, mp, min(m, 4000))
                    d = s + rng.choice([0, 1, -1, n - 1, n, n + 1, 1 - n, -n, -n - 1])
                elif rng.random() < .2:
                    s, d = rng.choice([(BASE + END - m + rng.randint(-4, 3), BASE + mp["grp1"][0]), (BASE + mp["grp1"][0], BASE + END - m + rng.randint(-4, 3))])
                if not safe(mp, d, n):
                    d = BASE + inside(rng, mp, m)
                big = n > 100000
                acts += ["memget %d %d" % (s - BASE, 0 if big else n), direct("MEMCOPY %s,%s,%d\r" % (raw_expr(rng, d), raw_expr(rng, s), n)), "memwatch", "memget %d %d" % (d - BASE, 0 if big else n)]
                meta.append(("copy", d, s, n))
            else:
                acts2, me = addr_stmt(rng, mp)
                acts += acts2
                meta.append(me)
        cases.append(Case("m%d" % len(cases), acts, meta))
    res = run_cases(binp, cases, cpu=30)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        bad = judge(ck, mp, c, r)
        if bad:
            ck.violation(bad[0], bad[1], case_text(c)[:60000])
    return ck.finish(min_evals=1500)


def safe(mp, d, n):
    """nothing the interpreter needs lies there"""
    if n <= 0 or d + n - BASE > END or d < BASE:
        return True
    o = d - BASE
    return any(v[0] <= o and o + n <= v[0] + v[1] for _, v in zones(mp)) or o >= END - (1 << 19) or \
        min(v[0] for _, v in zones(mp)) <= o and o + n <= max(v[0] + v[1] for _, v in zones(mp))


INTERNAL = ["!CONSOLE", "!BG", "!SPRITE", "!GRAPHICS", "!PANEL", "!RESOURCE", "!INPUT", "!VAR", "!STR", "!ARRAY", "!SYSTEM", "!EXEC", "!SOURCE", "!BYTECODE"]
SIZES = {"chr": 8192, "scr": 8192, "grp": 49152, "col": 512, "mem": 516}


NOPAGE = {"BG": 0, "SP": 0, "GRP": 0}


def addr_of(n, o, pages, mp):
    if n[0] == "!":
        s, at = mp[n][1], {BASE + mp[n][0]}
    else:
        kind, i = slot(n, pages)
        s, at = SIZES[kind], {BASE + mp["%s%d" % (kind, i)][0]}
        if len(n) == 3 and n not in ("GRP", "MEM", "SPU", "SPD"):   # which screen is not specified
            at |= {BASE + mp["%s%d" % (kind, slot(n + "0" + x, pages)[1])][0] for x in "UL"}
    q = "\"%s\"%s" % (n, "" if o is None else ",%d" % o)
    o = o or 0
    return [direct("V=-7:V=ADDR(%s)\r" % q), "var V", "memwatch"], ("addr", q, {a + o for a in at}, {0} if 0 <= o < s else {OFFSET})


def addr_stmt(rng, mp):
    k = rng.random()
    if k < .3:
        n = rng.choice(INTERNAL)
        s = mp[n][1]
        o = rng.choice([0, s - 1, s, rng.randrange(s), -1, s + 1, 100000, None])
        return addr_of(n, o, NOPAGE, mp)
    if k < .6:
        n = rng.choice(ALL)
        if rng.random() < .2:
            n = rng.choice(["GRP", "SPU", "MEM", "BGU", "SCU", "COL", "SPS", "SPD", "BGF", "BGD"])
        pages = {"BG": rng.randrange(2), "SP": rng.randrange(2), "GRP": rng.randrange(2)}
        s = SIZES[slot(n, pages)[0]]
        o = rng.choice([0, s - 1, s, rng.randrange(s), -1, s + 1, 500000, None])
        acts, m = addr_of(n, o, pages, mp)
        return [direct("BGPAGE %d:SPPAGE %d:GPAGE %d\r" % (pages["BG"], pages["SP"], pages["GRP"])), "memwatch"] + acts, ("addr2",) + m[1:]
    if k < .75:
        v = rng.choice(["A", "B1", "LONGNAME_16CHARS", "_X", "Q", "abc"])
        x, y = value(rng), value(rng)
        return [direct("%s=%s\r" % (v, raw_expr(rng, x))), direct("V=PEEK(ADDR(\"&%s\")):POKE ADDR(\"&%s\"),%s:W=ADDR(\"&%s\")==ADDR(\"&%s\",0)\r" % (v, v, raw_expr(rng, y), v, v)), "var V", "var " + v, "var W", "memwatch"], ("var", v, x, y)
    if k < .83:
        v = rng.choice(["A$", "B1$", "LONGNAME_16CHAR$"[:15] + "R$", "_X$"])
        t = rnd_text(rng, rng.choice([1, 2, 5, 9]), b"ABCxyz019 ")
        return [direct("%s=\"%s\"+\"%s\"\r" % (v, t[:1].decode(), t[1:].decode())), direct("V=0:FOR I=0 TO %d:V=V+(PEEKB(ADDR(\"&%s\",I))==ASC(MID$(%s,I,1))):NEXT\r" % (len(t) - 1, v, v)), "var V", "memwatch"], ("str", v, len(t))
    if k < .9:
        # reads a pointer: the result is any number, what is read lies in the block
        a = address(rng, mp, 8) if rng.random() < .7 else BASE + END + rng.randint(-10, 2)
        ok = 0 <= a - BASE <= END - 8
        return [direct("V=ADDR(\"*\",%s)\r" % raw_expr(rng, a)), "memwatch"], ("deref", a, {0} if ok else {ADDRESS, NULL})
    n, errs = rng.choice([("", {CALL}), ("!", {CALL}), ("!X", {CALL}), ("!CONSOL", {CALL}), ("!CONSOLES", {CALL}), ("&", {CALL}), (".", {CALL}), ("&ABCDEFGHIJKLMNOPQ", {CALL}), ("&ABCDEFGHIJKLMNOPQ$", {CALL}),
                          (".ABCDEFGHIJKLMNOPQ[]", {CALL}), ("&" + "Z" * 60, {CALL}), ("&1A", {CALL}), ("&A+B", {CALL}), ("& ", {CALL}), (".A B", {CALL}), ("&$", {CALL}), ("&A$$", {CALL}), ("&[]", {CALL}), ("&A[", {CALL}), ("&A]", {CALL}),
                          ("X", {E.INVALID_RESOURCE_TYPE}), ("GRP4", {E.INVALID_RESOURCE_TYPE}), ("GRPX", {E.INVALID_RESOURCE_TYPE}), ("BGU0X", {E.INVALID_RESOURCE_TYPE}), ("BGU0UU", {E.INVALID_RESOURCE_TYPE}),
                          ("COL3", {E.INVALID_RESOURCE_TYPE}), ("SPU8", {E.INVALID_RESOURCE_TYPE}), ("grp0", {E.INVALID_RESOURCE_TYPE}), ("SPU0L", {E.INVALID_RESOURCE_TYPE}), ("A" * 40, {E.INVALID_RESOURCE_TYPE}), ("SCU2U", {E.INVALID_RESOURCE_TYPE})])
    return [direct("V=-7\r"), direct("F=FREEVAR\r"), direct("V=ADDR(\"%s\"%s)\r" % (n, rng.choice(["", ",0", ",5"]))), "var V", "memwatch"], ("badname", n, errs)


def in_block(a, n):
    return 0 <= a - BASE and a - BASE + n <= END


def judge(ck, mp, c, r):
    pos = {}

    def nxt(t):
        pos[t] = pos.get(t, -1) + 1
        return r.get(t, pos[t])
    if nxt("run")["err"]:
        return "memsafe", "MEMSAFE could not be set"
    nxt("memwatch")
    for m in c.meta:
        ck.case(str(m))
        ck.count(m[0])
        if m[0] == "poke":
            _, w, a, v = m
            n = WIDTH[w]
            nxt("memget")
            e, ch, now = nxt("run")["err"], nxt("memwatch"), nxt("memget")["v"]
            ok = in_block(a, n)
            what = "POKE%s 0x%x (block offset %d), %s" % (w, a & 0xffffffff, a - BASE, v / 4096)
            want = {0} if ok else {NULL} if a == 0 else {ADDRESS}
            if e not in want:
                return "poke", "%s: %s, expected %s" % (what, E.name(e), E.name(min(want)))
            if e and ch["n"]:
                return "poke_changed", "%s was rejected but changed %d bytes from block offset %d" % (what, ch["n"], ch["lo"])
            if not e:
                ck.count("writes_verified")
                b = ((v if w == "" else v >> 12) & (1 << 8 * n) - 1).to_bytes(n, "little").hex()
                if now != b:
                    return "poke_value", "%s stored %s, expected %s" % (what, now, b)
                if ch["n"] and not (a - BASE <= ch["lo"] and ch["hi"] < a - BASE + n):
                    return "poke_other", "%s changed bytes from %d to %d" % (what, ch["lo"], ch["hi"])
        elif m[0] == "peek":
            _, w, a = m
            n = WIDTH[w]
            was = nxt("memget")["v"]
            e, v, ch = nxt("run")["err"], nxt("var")["v"], nxt("memwatch")
            what = "PEEK%s(0x%x) (block offset %d)" % (w, a & 0xffffffff, a - BASE)
            want = 0 if in_block(a, n) else NULL if a == 0 else ADDRESS
            if e != want:
                return "peek", "%s: %s, expected %s" % (what, E.name(e), E.name(want))
            if ch["n"]:
                return "peek_changed", "%s changed %d bytes" % (what, ch["n"])
            if not e:
                x = int.from_bytes(bytes.fromhex(was), "little")
                x = wrap32(x if w == "" else x << 12)
                ck.count("reads_verified")
                if v != x:
                    return "peek_value", "%s is %s, expected %s" % (what, v, x)
            elif v != -7 << 12:
                return "peek_assigned", "%s was rejected but assigned" % what
        elif m[0] == "fill":
            _, d, v, n = m
            e, ch, now = nxt("run")["err"], nxt("memwatch"), nxt("memget")["v"]
            what = "MEMFILL 0x%x (block offset %d),%d,%d" % (d & 0xffffffff, d - BASE, v, n)
            want = size_errors(d, n)
            if e not in want:
                return "fill", "%s: %s, expected %s" % (what, E.name(e), "/".join(E.name(x) for x in want))
            if e:
                if ch["n"]:
                    return "fill_changed", "%s was rejected but changed %d bytes from %d" % (what, ch["n"], ch["lo"])
                continue
            ck.count("writes_verified")
            if n <= 100000 and now != ("%02x" % (v & 255)) * n:
                return "fill_value", "%s did not fill everything" % what
            if ch["n"] and not (d - BASE <= ch["lo"] and ch["hi"] < d - BASE + n):
                return "fill_other", "%s changed bytes from %d to %d" % (what, ch["lo"], ch["hi"])
        elif m[0] == "copy":
            _, d, s, n = m
            was = nxt("memget")["v"]
            e, ch, now = nxt("run")["err"], nxt("memwatch"), nxt("memget")["v"]
            what = "MEMCOPY 0x%x (block offset %d),0x%x (%d),%d" % (d & 0xffffffff, d - BASE, s & 0xffffffff, s - BASE, n)
            want = copy_errors(d, s, n)
            if e not in want:
                return "copy", "%s: %s, expected %s" % (what, E.name(e), "/".join(E.name(x) for x in want))
            if e:
                if ch["n"]:
                    return "copy_changed", "%s was rejected but changed %d bytes from %d" % (what, ch["n"], ch["lo"])
                continue
            ck.count("writes_verified")
            if now != was:
                return "copy_value", "%s did not copy everything" % what
            if ch["n"] and not (d - BASE <= ch["lo"] and ch["hi"] < d - BASE + n):
                return "copy_other", "%s changed bytes from %d to %d" % (what, ch["lo"], ch["hi"])
        elif m[0] in ("addr", "addr2"):
            if m[0] == "addr2":
                if nxt("run")["err"]:
                    return "page", "a page could not be selected"
                nxt("memwatch")
            e, v, ch = nxt("run")["err"], nxt("var")["v"], nxt("memwatch")
            at = m[2] if isinstance(m[2], set) else {m[2]}
            if e not in m[3]:
                return "addr", "ADDR of %s: %s, expected %s" % (m[1], E.name(e), "/".join(E.name(x) for x in m[3]))
            if not e and v not in at:
                return "addr_value", "ADDR of %s is 0x%x (block offset %d), expected block offset %s" % (m[1], v, v - BASE, sorted(x - BASE for x in at))
            if ch["n"]:
                return "addr_changed", "ADDR of %s changed %d bytes" % (m[1], ch["n"])
            if not e:
                ck.count("addresses_verified")
        elif m[0] == "var":
            es = [nxt("run")["err"] for _ in range(2)]
            v, x, w = nxt("var")["v"], nxt("var")["v"], nxt("var")["v"]
            nxt("memwatch")
            if any(es):
                return "addr", "ADDR(\"&%s\") stopped with %s" % (m[1], [E.name(x) for x in es])
            if v != m[2] or x != m[3] or not w:
                return "addr_var", "PEEK of ADDR(\"&%s\") is %s (expected %s), after POKE the variable is %s (expected %s)" % (m[1], v, m[2], x, m[3])
            ck.count("addresses_verified")
        elif m[0] == "str":
            es = [nxt("run")["err"] for _ in range(2)]
            v = nxt("var")["v"]
            nxt("memwatch")
            if any(es) or v != m[2] << 12:
                return "addr_str", "characters at ADDR(\"&%s\"): %s of %d right (%s)" % (m[1], v / 4096, m[2], [E.name(x) for x in es])
            ck.count("addresses_verified")
        elif m[0] == "deref":
            e, ch = nxt("run")["err"], nxt("memwatch")
            if e not in m[2]:
                return "deref", "ADDR(\"*\",0x%x) (block offset %d): %s, expected %s" % (m[1] & 0xffffffff, m[1] - BASE, E.name(e), "/".join(E.name(x) for x in m[2]))
            if ch["n"]:
                return "deref_changed", "ADDR(\"*\") changed memory"
        elif m[0] == "badname":
            nxt("run")
            nxt("run")
            e, v, ch = nxt("run")["err"], nxt("var")["v"], nxt("memwatch")
            if e not in m[2]:
                return "addr_name", "ADDR(\"%s\"): %s, expected %s" % (m[1], E.name(e), "/".join(E.name(x) for x in m[2]))
            if v != -7 << 12 or ch["n"]:
                return "addr_name_changed", "ADDR(\"%s\") was rejected but changed something" % m[1]
    ck.sample(str(c.meta[0]))
    return None


EDGE = 2    # whether the last two bytes of the block can be part of a range is not specified


def size_errors(d, n):
    """errors for a range to read or write"""
    if d == 0:
        return {NULL, E.OUT_OF_RANGE} if n < 0 else {NULL}
    out = set()
    if n < 0:
        out.add(E.OUT_OF_RANGE)
    if not 0 <= d - BASE < END:
        out.add(ADDRESS)
        if n == 0 and d - BASE == END:
            out.add(0)
    elif n >= 0:
        if d - BASE + n > END:
            out.add(CALL)
        elif d - BASE + n > END - EDGE:
            out |= {0, CALL}
    return out or {0}


def copy_errors(d, s, n):
    a, b = size_errors(d, n), size_errors(s, n)
    hard = {e for x in (a, b) if 0 not in x for e in x}
    maybe = {e for x in (a, b) for e in x if e}
    if hard:
        # more than one thing may be wrong at once
        return maybe | ({CALL} if n >= 0 else set())
    if n > 0 and abs(d - s) < n:
        return maybe | {CALL}
    if abs(d - s) <= max(n, 0):    # adjacent, or nothing to copy: not an overlap, but may be taken for one
        return maybe | {0, CALL}
    return maybe | {0}


if __name__ == "__main__":
    main(run, "C26")
