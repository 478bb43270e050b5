#!/usr/bin/env python3
"""C03: operators against exact 20.12 arithmetic."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def fit(z):
    return (0, z) if I32MIN <= z <= I32MAX else (E.OVERFLOW, None)


def int_op(f):
    return lambda a, b: (0, wrap32(f(a >> 12, b >> 12) << 12))


BIN = {
    "+": lambda a, b: fit(a + b),
    "-": lambda a, b: fit(a - b),
    "*": lambda a, b: fit(a * b >> 12),
    "/": lambda a, b: (E.DIVIDE_BY_ZERO, None) if b == 0 else fit(tdiv(a << 12, b)),
    "%": lambda a, b: (E.DIVIDE_BY_ZERO, None) if b == 0 else (0, a - tdiv(a, b) * b),
    "AND": int_op(lambda x, y: x & y),
    "OR": int_op(lambda x, y: x | y),
    "XOR": int_op(lambda x, y: x ^ y),
    "==": lambda a, b: (0, 4096 * (a == b)),
    "!=": lambda a, b: (0, 4096 * (a != b)),
    "<": lambda a, b: (0, 4096 * (a < b)),
    ">": lambda a, b: (0, 4096 * (a > b)),
    "<=": lambda a, b: (0, 4096 * (a <= b)),
    ">=": lambda a, b: (0, 4096 * (a >= b)),
}
UN = {
    "-": lambda a: wrap32(-a),
    "NOT ": lambda a: wrap32(~(a >> 12) << 12),
    "!": lambda a: 4096 * (a == 0),
}
SENT = 987654321


def forms(op, binary):
    sp = " " if op.isalpha() else ""
    o = sp + op + sp
    if binary:
        return [("vv", "C=A%sB\r" % o), ("ee", "C=(A+Z)%s(B+Z)\r" % o), ("ve", "C=A%s(B+Z)\r" % o), ("ev", "C=(A+Z)%sB\r" % o),
                ("arr", "Q[1]=A:Q[2]=B:C=Q[1]%sQ[2]\r" % o), ("self", "C=A:A=A%sB:C=A\r" % o)]
    return [("v", "C=%sA\r" % op), ("e", "C=%s(A+Z)\r" % op), ("arr", "Q[1]=A:C=%sQ[1]\r" % op)]


def run():
    ck = Check("C03")
    binp = build("asan")
    ck.rule = "operator x operand form (variable, computed, array element) x operand pair; pairs from all pairs of boundary values plus random 32-bit values; non-trivial = distinct (operator, form, operands)"
    rng = ck.rng
    cases = []
    npairs = ck.n(1200, 12000)
    for op in BIN:
        pairs = [(a, b) for a in INTERESTING for b in INTERESTING]
        rng.shuffle(pairs)
        for fi, (fn, src) in enumerate(forms(op, True)):
            ps = pairs if fi < 2 or THOROUGH else pairs[:400]
            ps = ps + [(rnd_fixp(rng), rnd_fixp(rng)) for _ in range(npairs if fi < 2 else npairs // 3)]
            # products and quotients around the overflow edge
            for _ in range(npairs // 4):
                a = rnd_fixp(rng) or 1
                e = rng.choice([I32MAX, I32MIN]) + rng.randint(-3, 3)
                b = tdiv(e << 12, a) + rng.randint(-2, 2) if rng.random() < .5 else tdiv(a << 12, e) + rng.randint(-2, 2)
                if rng.random() < .3:
                    b = e - a
                ps.append((a, wrap32(b)))
            for k in range(0, len(ps), 250):
                part = ps[k:k + 250]
                cases.append(Case("b%d" % len(cases), [tab(src, ["A", "B", "C", "Z"], ["C", "B"], [(a, b, SENT, 0) for a, b in part])], (op, fn, True, part, src)))
    for op in UN:
        for fn, src in forms(op, False):
            vs = INTERESTING + [rnd_fixp(rng) for _ in range(npairs)]
            for k in range(0, len(vs), 250):
                part = [(v, 0) for v in vs[k:k + 250]]
                cases.append(Case("u%d" % len(cases), [tab(src, ["A", "B", "C", "Z"], ["C", "B"], [(a, b, SENT, 0) for a, b in part])], (op, fn, False, part, src)))
    res = run_cases(binp, cases)
    for c in cases:
        op, fn, binary, part, src = c.meta
        r = res[c.id]
        if ck.crash(r, c, "%s form %s" % (op, fn)):
            continue
        t = r.get("tab")
        if t["tok"]:
            ck.violation("tok:%s:%s" % (op, fn), "program %r rejected with %s" % (src, E.name(t["tok"])), case_text(c))
            continue
        for (a, b), row in zip(part, t["rows"]):
            if binary:
                e, v = BIN[op](a, b)
            else:
                e, v = 0, UN[op](a)
            ck.case((op, fn, a, b))
            ck.count("errors_expected" if e else "values_compared")
            want_c = v if not e else (a if fn == "self" else SENT)
            if row[0] != e or row[1] != want_c or row[2] != b:
                ck.violation("value:%s:%s" % (op, fn), "%r with A=%d B=%d (raw 1/4096): got err %s C=%s B=%s, expected err %s C=%s" % (
                    src, a, b, E.name(row[0]), row[1], row[2], E.name(e), want_c),
                    "tab rows; program %r A=%d B=%d" % (src, a, b))
        ck.sample("%s: A=%d B=%d -> %r" % (src.strip(), part[0][0], part[0][1], t["rows"][0]))
    return ck.finish(min_evals=1000)


if __name__ == "__main__":
    main(run, "C03")
