#!/usr/bin/env python3
"""C06: string functions against operations on byte sequences."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ref import *

ALL = bytes(range(256))
SENT, SENTN = b"sentinel", 424242

# name, program (result in R or R$), operand kinds
OPS = {
    "LEN": ("R=LEN({s})", "s"), "LEFT$": ("R$=LEFT$({s},{i})", "si"), "RIGHT$": ("R$=RIGHT$({s},{i})", "si"),
    "MID$": ("R$=MID$({s},{i},{j})", "sij"), "SUBST$": ("R$=SUBST$({s},{i},{j},{u})", "siju"),
    "INSTR": ("R=INSTR({s},{u})", "su"), "INSTR3": ("R=INSTR({i},{s},{u})", "isu"),
    "ASC": ("R=ASC({s})", "s"), "CHR$": ("R$=CHR$({i})", "i"), "+": ("R$={s}+{u}", "su"), "*": ("R$={s}*{i}", "si"),
    "==": ("R={s}=={u}", "su"), "!=": ("R={s}!={u}", "su"), "<": ("R={s}<{u}", "su"), ">": ("R={s}>{u}", "su"),
    "<=": ("R={s}<={u}", "su"), ">=": ("R={s}>={u}", "su"),
}
OPS["INSTR3"] = ("R=INSTR({s},{u},{i})", "sui")


def model(op, v):
    a = [v[k] for k in OPS[op][1]]
    if op in ("+", "==", "!=", "<", ">", "<=", ">="):
        return bstr(op, *a)
    if op == "*":
        return repeat(*a)
    return FN[op][0](*a)


def rnd_s(rng):
    r = rng.random()
    alpha = rng.choice([ALL, b"ab", b"a", b"abcABC019 ", bytes(range(0xa0, 0xe0)), b'"\'\\\0 ', ALL])
    if r < .1:
        n = 0
    elif r < .5:
        n = rng.randint(1, 6)
    elif r < .75:
        n = rng.randint(1, 40)
    elif r < .85:
        n = rng.choice([127, 128, 129, 254, 255, 256])
    else:
        n = rng.randint(1, 256)
    return bytes(rng.choice(alpha) for _ in range(n))


def rnd_i(rng, s):
    r = rng.random()
    if r < .55:
        v = rng.choice([0, 1, 2, len(s) - 1, len(s), len(s) + 1, rng.randint(0, max(1, len(s)))])
    elif r < .8:
        v = rng.choice([-1, -2, 255, 256, 257, 127, 128, 1000, 65535, 65536, 524287, -524288])
    else:
        return rnd_fixp(rng)
    return wrap32((v << 12) + rng.choice([0, 0, 0, 1, 2048, 4095]))


def run():
    ck = Check("C06")
    ck.rule = "string function or operator x operand form (variable, temporary, literal-free element, MEM$, nested) x operands; strings over all 256 characters and all lengths up to 256, positions around every boundary; distinct = (function, form, operands)"
    binp = build("asan")
    rng = ck.rng
    forms = {
        "var": dict(s="S$", u="U$", i="I", j="J", pre=""),
        "tmp": dict(s="(S$+E$)", u="(U$+E$)", i="(I+Z)", j="(J+Z)", pre=""),
        "arr": dict(s="X$[1]", u="X$[2]", i="X[1]", j="X[2]", pre="X$[1]=S$:X$[2]=U$:X[1]=I:X[2]=J:"),
        "mem": dict(s="MEM$", u="U$", i="I", j="J", pre="MEM$=S$:"),
        "mem2": dict(s="S$", u="MEM$", i="I", j="J", pre="MEM$=U$:"),
        "self": dict(s="R$", u="R$", i="I", j="J", pre="R$=S$:"),
    }
    cases = []
    nrow = ck.n(500, 4000)
    for op, (tpl, kinds) in OPS.items():
        for fn, f in forms.items():
            rows, ms = [], []
            for _ in range(nrow if fn in ("var", "tmp") else nrow // 2):
                s = rnd_s(rng)
                r = rng.random()
                if r < .3:
                    u = s
                    if u and rng.random() < .6:
                        k = rng.randrange(len(u))
                        u = rng.choice([u[:k], u[k:], u[:k] + bytes([u[k] ^ 1]) + u[k + 1:], u + b"a", u[:k] + u[k + 1:]])[:256]
                elif r < .5 and len(s) > 1:
                    a = rng.randrange(len(s))
                    u = s[a:a + rng.randint(1, 4)]
                elif r < .7:
                    u = bytes(rng.choice(ALL) for _ in range(max(0, 256 - len(s) + rng.randint(-1, 1))))[:256]
                else:
                    u = rnd_s(rng)
                i, j = rnd_i(rng, s), rnd_i(rng, s)
                if op == "*" and rng.random() < .5 and s:
                    i = (256 // len(s) + rng.randint(-1, 1)) << 12
                if op == "CHR$" and rng.random() < .6:
                    i = rng.randint(-2, 258) << 12 | rng.choice([0, 100])
                m = dict(s=s, u=s if fn == "self" else u, i=i, j=j)
                ms.append(m)
                rows.append((hexs(list(W(s))), hexs(list(W(u))), i, j, "-", 0, hexs(list(W(SENT))), SENTN))
                m["u0"] = u
            src = f["pre"] + tpl.format(**f) + "\r"
            for k in range(0, len(rows), 100):
                cases.append(Case("%s-%s-%d" % (op if op.isalnum() else "op%d" % list(OPS).index(op), fn, k) if "$" not in op else "f%d-%s-%d" % (list(OPS).index(op), fn, k),
                                  [tab(src, ["S$", "U$", "I", "J", "E$", "Z", "R$", "R"], ["R$", "R", "S$", "U$"], rows[k:k + 100]), direct("R=0\r"), "pool"], (op, fn, src, ms[k:k + 100])))
    res = run_cases(binp, cases)
    for c in cases:
        op, fn, src, ms = c.meta
        r = res[c.id]
        if ck.crash(r, c, "%s %s" % (op, fn)):
            continue
        t = r.get("tab")
        if t["tok"]:
            ck.violation("tok:%s" % op, "program %r rejected: %s" % (src, E.name(t["tok"])), case_text(c))
            continue
        string = tpl_is_string(op)
        for m, row in zip(ms, t["rows"]):
            e, v = 0, None
            try:
                v = model(op, m)
            except PtcError as er:
                e = er.code
            ck.case((op, fn, m["s"], m["u"], m["i"], m["j"]))
            ck.count("errors_expected" if e else "values_compared")
            keep = W(m["s"]) if fn == "self" else W(SENT)
            ws = W(v) if string and not e else keep
            wn = v if not string and not e else SENTN
            got = (row[0], uns(row[1]), row[2], uns(row[3]), uns(row[4]))
            want = (e, ws, wn, W(m["s"]), W(m["u0"]))
            if got != want:
                ck.violation("%s:%s" % (op, "err" if row[0] != e else "value"), "%r S$=%r U$=%r I=%d J=%d (raw)\n got %r\n want %r" % (
                    src, m["s"], m["u0"], m["i"], m["j"], (E.name(got[0]),) + got[1:], (E.name(want[0]),) + want[1:]), "%r %r" % (src, m))
        if r.get("pool")["bad"]:
            ck.violation("pool", r.get("pool")["why"], case_text(c))
        ck.sample("%s S$=%r I=%d -> %r" % (src.strip(), ms[0]["s"][:20], ms[0]["i"], t["rows"][0][:2]))
    return ck.finish(min_evals=5000)


def tpl_is_string(op):
    return OPS[op][0].startswith("R$")


if __name__ == "__main__":
    main(run, "C06")
