#!/usr/bin/env python3
"""C05: numbers to text and back."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ref import *


def attempt(f, *a):
    try:
        return 0, f(*a)
    except PtcError as e:
        return e.code, None


def rnd_numtext(rng):
    r = rng.random()
    ip = rng.choice(["", "0", "00", "1", "7", "42", "999", "524286", "524287", "524288", "524289", "1048575", "1048576", "99999999", str(rng.randint(0, 600000)), "4294967296", "9" * 15])
    if r < .35:
        s = ip
    else:
        fp = rng.choice(["", "0", "5", "25", "125", "001", "0001", "000244140625", "000244140624", "999", "9999", "999755859375", "9997558593749", "1234567890123456",
                         "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 14)))])
        s = ip + "." + fp
    return s


def run():
    ck = Check("C05")
    ck.rule = "value or text x conversion path (PRINT, STR$, HEX$, VAL, literal, DATA/READ); all boundary raw values, dense ranges and random values; distinct = (path, input)"
    binp = build("asan")
    rng = ck.rng
    cases = []
    big = 8 if THOROUGH else 1
    # --- STR$ and round trip
    raws = set(INTERESTING) | set(range(-4200, 4200)) | {I32MIN + i for i in range(300)} | {I32MAX - i for i in range(300)}
    raws |= {(k << 12) + d for k in (9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 524286, -10, -100, -100000) for d in range(-9, 10)}
    raws |= {rnd_fixp(rng) for _ in range(12000 * big)}
    raws |= {wrap32(rng.randint(0, 2 ** 20) * 4096 + 4096 * k // 1000) for k in range(1000)}
    raws = sorted(raws)
    rng.shuffle(raws)
    for k in range(0, len(raws), 300):
        part = raws[k:k + 300]
        cases.append(Case("s%d" % k, [tab("S$=STR$(A):H$=HEX$(A):V=VAL(S$)\r", ["A", "S$"], ["S$", "H$", "V"], [(a, "-") for a in part])], ("str", part)))
    # --- PRINT
    for k in range(ck.n(60, 400)):
        part = [rnd_fixp(rng) for _ in range(22)]
        acts = ["sys", direct("DIM V[30]\r")]
        for i, v in enumerate(part):
            acts += ["set A %d" % v, direct("V[%d]=A\r" % i)]
        sep = rng.choice(["?V[I]", "PRINT V[I]", "?STR$(V[I])", "?V[I];\" \""])
        acts += [direct("CLS:FOR I=0 TO 21:%s:NEXT\r" % sep), "con"]
        cases.append(Case("p%d" % k, acts, ("print", part)))
    # --- HEX$ with digits
    for k in range(ck.n(25, 200)):
        part = [(rnd_fixp(rng) if rng.random() < .5 else (rng.choice([1, -1]) * (16 ** rng.randint(0, 5) // rng.choice([1, 2])) + rng.randint(-2, 2)) << 12,
                 rng.choice([0, 1, 2, 3, 4, 5, 5, 6, -1]) * 4096 + rng.choice([0, 0, 100])) for _ in range(200)]
        part = [(wrap32(a), b) for a, b in part]
        cases.append(Case("h%d" % k, [tab("H$=HEX$(A,B)\r", ["A", "B", "H$"], ["H$"], [(a, b, hexs("keep")) for a, b in part])], ("hex", part)))
    # --- VAL
    texts = []
    for _ in range(ck.n(8000, 60000)):
        r = rng.random()
        if r < .6:
            s = rng.choice(["", "", "-"]) + rnd_numtext(rng) + rng.choice(["", "", "", " ", "A", "-1", ".5", "E5"])
        elif r < .8:
            b = rng.choice("HHB")
            n = rng.randint(0, 12 if b == "H" else 34)
            s = "&" + b + "".join(rng.choice("0123456789ABCDEF" if b == "H" else "01") for _ in range(min(n, 40) if b == "B" else min(n, 6))) + rng.choice(["", "", "G", "2", " "])
        elif r < .9:
            s = rng.choice(["&", "&X1", "&h1", "", " 1", "+1", "-", "--1", ".", "-.5", "..5", "1..5", "&H", "&B", "&H-1", "ABC"])
        else:
            s = "".join(rng.choice("0123456789.-&HB A") for _ in range(rng.randint(0, 10)))
        texts.append(s.encode())
    for k in range(0, len(texts), 200):
        part = texts[k:k + 200]
        cases.append(Case("v%d" % k, [tab("V=VAL(S$)\r", ["S$", "V"], ["V"], [(hexs(list(W(s))), 777) for s in part])], ("val", part)))
    # --- every text with at most three decimals survives reading and printing
    t3 = ["%d.%03d" % (i, f) for i in (0, rng.randint(1, 9), rng.randint(10, 99999), 524286) for f in range(1000)]
    t3 += ["-" + t for t in rng.sample(t3, 800)]
    for k in range(0, len(t3), 200):
        part = t3[k:k + 200]
        cases.append(Case("t%d" % k, [tab("V=VAL(S$):T$=STR$(V)\r", ["S$"], ["T$"], [(hexs(t),) for t in part])], ("t3", part)))
    # --- literals
    lits = []
    for _ in range(ck.n(4000, 40000)):
        r = rng.random()
        if r < .7:
            s = rnd_numtext(rng)
            if s in ("", ".") or s.startswith("."):
                s = "0" + s
            if rng.random() < .1 and s.startswith("0."):
                s = s[1:] if len(s) > 2 else s
        elif r < .9:
            s = "&H" + "".join(rng.choice("0123456789ABCDEF") for _ in range(rng.randint(1, 6)))
        else:
            s = "&B" + "".join(rng.choice("01") for _ in range(rng.randint(1, 24)))
        lits.append(s)
    for k in range(0, len(lits), 40):
        part = lits[k:k + 40]
        acts = []
        for s in part:
            acts += ["set V 777", direct("V=%s\r" % s), "var V"]
        cases.append(Case("l%d" % k, acts, ("lit", part)))
    # --- DATA
    for k in range(ck.n(60, 600)):
        part = [rng.choice(["", "", "-"]) + rnd_numtext(rng) for _ in range(24)]
        part = [p for p in part if p not in ("", "-")]
        src = "".join("DATA %s\r" % p for p in part)
        acts = []
        for i, p in enumerate(part):
            acts += ["set V 777", direct("READ V\rDATA %s\r" % p), "var V"]
        cases.append(Case("d%d" % k, acts, ("data", part)))
    res = run_cases(binp, cases)
    for c in cases:
        kind, part = c.meta
        r = res[c.id]
        if ck.crash(r, c, kind):
            continue
        if kind in ("str", "hex", "val", "t3"):
            t = r.get("tab")
            if t["tok"]:
                ck.violation("tok:" + kind, "program rejected: %s" % E.name(t["tok"]), case_text(c))
                continue
            for x, row in zip(part, t["rows"]):
                ck.case((kind, x))
                ck.count(kind)
                if kind == "str":
                    s = fmt_num(x)
                    back = parse_prefix(s)
                    e = 0
                    if not I32MIN <= back <= I32MAX:
                        e = E.OVERFLOW
                    got = (row[0], uns(row[1]), uns(row[2]))
                    want = (e, W(s), W(f_hex(x)))
                    if got != want or (not e and row[3] != back) or (x % 512 == 0 and not e and row[3] != x):
                        ck.violation("str", "A=%d raw: got %r VAL %s, expected %r (%r) VAL %s" % (x, got, row[3], want, s, back), "tab STR$ A=%d" % x)
                elif kind == "hex":
                    e, s = attempt(f_hex, *x)
                    if row[0] != e or uns(row[1]) != (W(s) if not e else W(b"keep")):
                        ck.violation("hex", "HEX$(%d,%d) raw: got %s %r expected %s %r" % (x[0], x[1], E.name(row[0]), row[1], E.name(e), s), "HEX$ %r" % (x,))
                elif kind == "val":
                    e, v = attempt(val, x)
                    if row[0] != e or row[1] != (777 if e else v):
                        ck.violation("val", "VAL(%r): got %s %s expected %s %s" % (x, E.name(row[0]), row[1], E.name(e), v), "VAL %r" % x)
                else:
                    w = x.rstrip("0").rstrip(".") if "." in x else x
                    if w == "-0":
                        w = "0"
                    if row[0] or uns(row[1]) != W(w.encode()):
                        ck.violation("t3", "%r read and printed gives %r" % (x, "".join(map(chr, uns(row[1])))), "t3 %r" % x)
        elif kind == "print":
            if any(o["err"] for o in r.all("run")):
                ck.violation("print:err", "printing failed", case_text(c))
                continue
            con = units(r.get("con")["text"])
            for i, v in enumerate(part):
                ck.case((kind, v))
                ck.count(kind)
                line = tuple(con[i * 32:i * 32 + 32])
                s = W(fmt_num(v))
                # cells without text may be 0 or blank
                tail = line[len(s):]
                if line[:len(s)] != s or any(x not in (0, 0x20) for x in tail):
                    ck.violation("print", "PRINT of raw %d shows %r, expected %r" % (v, "".join(map(chr, line)), fmt_num(v)), case_text(c))
        else:
            runs, vs = r.all("run"), r.all("var")
            for s, o, v in zip(part, runs, vs):
                ck.case((kind, s))
                ck.count(kind)
                if kind == "lit":
                    if s.startswith("&"):
                        raw = int(s[2:], 16 if s[1] == "H" else 2) << 12
                        e = E.OVERFLOW if raw > 0xffffffff else 0
                    else:
                        raw = parse_prefix(s.encode())
                        e = E.OVERFLOW if raw > I32MAX else 0
                else:
                    raw = parse_prefix(s.encode())
                    e = E.OVERFLOW if not I32MIN <= raw <= I32MAX else 0
                if o["err"] != e or v["v"] != (777 if e else wrap32(raw)):
                    ck.violation(kind, "%s %r: got err %s value %s, expected err %s value %s" % (kind, s, E.name(o["err"]), v["v"], E.name(e), wrap32(raw)), "%s %s" % (kind, s))
        if len(ck.samples) < 6 and kind not in [s.split(":")[0] for s in ck.samples]:
            ck.sample("%s: %r" % (kind, part[0]), 8)
    return ck.finish(min_evals=10000)


if __name__ == "__main__":
    main(run, "C05")
