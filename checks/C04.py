#!/usr/bin/env python3
"""C04: expressions against direct evaluation of their syntax tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ref import *

NV = ("A", "B", "C1", "LONG_NAME")
SYS = {"TRUE": 4096, "FALSE": 0, "CANCEL": -4096, "VERSION": 0x2020 << 12, "TABSTEP": 4 << 12, "CSRX": 0}
NARR, SARR = (("Q", (5,)), ("G", (3, 3))), (("Q$", (4,)),)


def shape(x):
    if x[0] == "bin":
        return (x[1], shape(x[2]), shape(x[3]))
    if x[0] == "un":
        return (x[1], shape(x[2]))
    if x[0] == "fn":
        return (x[1],) + tuple(shape(a) for a in x[2])
    return x[0]


def pairs():
    """every ordered pair of binary operators in both groupings, with unary operators in every position"""
    v = lambda n: ("var", n)
    for o1 in PREC:
        for o2 in PREC:
            for g in (0, 1):
                yield ("bin", o2, ("bin", o1, v("A"), v("B")), v("C1")) if g == 0 else ("bin", o1, v("A"), ("bin", o2, v("B"), v("C1")))
        for u in ("-", "NOT", "!"):
            yield ("bin", o1, ("un", u, v("A")), v("B"))
            yield ("bin", o1, v("A"), ("un", u, v("B")))
            yield ("un", u, ("bin", o1, v("A"), v("B")))
            for u2 in ("-", "NOT", "!"):
                yield ("bin", o1, ("un", u, ("un", u2, v("A"))), v("B"))
                yield ("bin", o1, v("A"), ("un", u, ("un", u2, v("B"))))
            for o2 in PREC:
                yield ("bin", o2, ("bin", o1, v("A"), ("un", u, v("B"))), v("C1"))
                yield ("bin", o1, v("A"), ("bin", o2, ("un", u, v("B")), v("C1")))


def run():
    ck = Check("C04")
    ck.rule = "random typed expression trees (numbers, strings, functions, arrays) plus every operator pair in both groupings, rendered with the minimal parentheses of the documented precedence and random blanks, redundant parentheses, brackets and case; the value of the assigned variable must equal direct evaluation of the tree; distinct = operator shapes"
    binp = build("asan")
    rng = ck.rng
    items = [(x, "N") for x in pairs()]
    for _ in range(ck.n(26000, 400000)):
        t = "N" if rng.random() < .75 else "S"
        items.append((gen_expr(rng, rng.choice([1, 2, 2, 3, 3, 4, 5]), t, NV + tuple(SYS) if rng.random() < .3 else NV, ("A$", "S$"), NARR, SARR), t))
    rng.shuffle(items)
    groups, cur = [], []
    for x, t in items:
        st = Style(rng, rng.choice([0, 0, .2, .6]), rng.choice([0, 0, .1, .3]), rng.choice([0, 0, .3, 1]))
        txt = render(x, st)
        tgt = "R$" if t == "S" else "R"
        if x[0] == "bin" and rng.random() < .03:      # the parts of the expression deep inside parentheses
            s2 = Style(rng, 0, 0, 0)
            a, b = render(x[2], s2), render(x[3], s2)
            n = min(rng.choice([5, 20, 31, 32, 33, 34, 40]), (90 - len(a) - len(b)) // 2)
            if n > 0:
                m = rng.randint(0, n)
                m = rng.choice([n, m, m, 0])
                op = " " + x[1] + " " if x[1].isalpha() else x[1]
                txt = "(" * m + a + ")" * m + op + "(" * (n - m) + b + ")" * (n - m) if m and m < n else \
                    "(" * n + a + ")" * n + op + "(" + b + ")" if m else "(" + a + ")" + op + "(" * n + b + ")" * n
        line = tgt + rng.choice(["", "", " "]) + "=" + rng.choice(["", "", " "]) + txt
        if len(line) > 99:
            continue
        cur.append((x, t, tgt, line))
        if len(cur) == 60:
            groups.append(cur)
            cur = []
    if cur:
        groups.append(cur)
    cases = []
    for gi, g in enumerate(groups):
        vals = {n: rnd_small(rng) for n in NV}
        vals["A$"], vals["S$"] = rnd_text(rng), rnd_text(rng)
        arr = {"Q": [rnd_small(rng) for _ in range(10)], "G": [[rnd_small(rng) for _ in range(10)] for _ in range(10)], "Q$": [rnd_text(rng) for _ in range(10)]}
        acts = []
        for n in NV:
            acts.append("set %s %d" % (n, vals[n]))
        for n in ("A$", "S$"):
            acts.append("set %s %s" % (n, hexs(list(W(vals[n])))))
        # arrays through temporaries so that the values are exact
        for i in range(5):
            acts += ["set TT %d" % arr["Q"][i], direct("Q[%d]=TT\r" % i)]
        for i in range(3):
            for j in range(3):
                acts += ["set TT %d" % arr["G"][i][j], direct("G[%d,%d]=TT\r" % (i, j))]
        for i in range(4):
            acts += ["set TT$ %s" % hexs(list(W(arr["Q$"][i]))), direct("Q$[%d]=TT$\r" % i)]
        pre = len([a for a in acts if a.startswith("direct")])
        for x, t, tgt, line in g:
            acts += ["set R 31337", "set R$ %s" % hexs(list(W(b"init"))), direct(line + "\r"), "var R", "var R$"]
        acts += [direct("R=0\r"), "pool"]
        env = dict(vals, **SYS)

        def look(name, idx, arr=arr):
            d = arr[name]
            for i in idx:
                d = d[i >> 12]
            return d
        env["@arr"] = look
        cases.append(Case("g%d" % gi, acts, (g, env, pre)))
    res = run_cases(binp, cases)
    for c in cases:
        g, env, pre = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        runs, vs = r.all("run")[pre:], r.all("var")
        if any(o["err"] for o in r.all("run")[:pre]):
            ck.violation("setup", "array setup failed", case_text(c))
            continue
        for i, (x, t, tgt, line) in enumerate(g):
            e, want = 0, None
            try:
                want = evaluate(x, env)
            except PtcError as er:
                e = er.code
            got = vs[2 * i + (t == "S")]["v"]
            other = vs[2 * i + (t != "S")]["v"]
            if t == "S":
                got = uns(got)
                want = W(want) if not e else W(b"init")
                ook = other == 31337
            else:
                want = want if not e else 31337
                ook = uns(other) == W(b"init")
            ck.case(shape(x))
            ck.count("errors_expected" if e else "values_compared")
            if runs[i]["err"] != e or got != want or not ook:
                sh = shape(x)
                ck.violation("expr:%s" % (sh[0] if isinstance(sh, tuple) else sh), "%r with %r\n got err %s value %s other var ok %s; expected err %s value %s\n tree %r" % (
                    line, {k: v for k, v in env.items() if k != "@arr"}, E.name(runs[i]["err"]), got, ook, E.name(e), want, x), direct(line + "\r"))
            elif i == 0:
                ck.sample("%s -> %s" % (line, got))
        p = r.get("pool")
        if p["bad"]:
            ck.violation("pool", "string pool inconsistent after expressions: " + p["why"], case_text(c))
    return ck.finish(min_evals=5000)


def rnd_small(rng):
    return rng.choice([0, 4096, -4096, 8192, 12288, 2048, -6144, rng.randint(-200000, 200000), rng.randint(-50, 50) << 12])


if __name__ == "__main__":
    main(run, "C04")
