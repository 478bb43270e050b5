#!/usr/bin/env python3
"""C11: every READ delivers the next DATA item of the source, once, in order, with its value."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gen import *

ANY = bytes([c for c in range(0x20, 0x100) if c not in (0x22,)])
BARE = bytes([c for c in range(0x21, 0x100) if c not in (0x22, 0x2c)])


def number(rng):
    k = rng.random()
    if k < .35:
        return "%d" % rng.randint(-20, 600)
    if k < .55:
        return "%d.%s" % (rng.randint(-300, 300), "".join(rng.choice("0123456789") for _ in range(rng.randint(0, 7))))
    if k < .7:
        return rng.choice(["524287", "-524287", "-524288", "524287.9999", "-524287.999", "0", "-0", "00012", ".5", "-.5", "5.", "-5.", "0.0001", ".00025", "-.00025", "524287.999755", "1.000000000000000001", "0000000000000000007"])
    if k < .8:
        return rng.choice([".", "-", "--5", "1-2", "1.2.3", "-.", "..5", "5-", "-5-5", "1..2"])
    if k < .84:
        return rng.choice(["524288", "-524289", "9999999999", "99999999999999999999999", "-524288.5", "18446744073709551617", "4294967296", "1048576", "2147483648"])
    return "%d" % rng.randint(-524287, 524287)


def item(rng):
    k = rng.random()
    if k < .4:
        return ("n", number(rng))
    if k < .45:
        return ("q", " " * rng.randint(0, 4) + number(rng) + " " * rng.choice([0, 0, 0, 1]))
    if k < .62:
        return ("u", rnd_text(rng, rng.choice([1, 2, 3, 5, 9, 20]), BARE))
    if k < .9:
        return ("q", rnd_text(rng, rng.choice([0, 1, 2, 4, 9, 20]), ANY))
    return ("e", "")


class L(Layout):
    """writes DATA lines in every way that means the same"""

    def stmt(self, s):
        if s[0] != "data":
            return Layout.stmt(self, s)
        r, out = self.r, []
        for i, d in enumerate(s[1]):
            t = d[1].decode("latin-1") if isinstance(d[1], bytes) else d[1]
            last = i == len(s[1]) - 1
            if d[0] == "q" or (d[0] in "un" and r.random() < .1):
                t = '"' + t + ('"' if not last or r.random() < .9 else "")
                if t.count('"') == 1:      # an open quote runs to the end of the line
                    out.append(" " * r.choice([0, 0, 1]) + t)
                    continue
                if r.random() < .05 and len(t) > 3:
                    t = t[:2] + '""' + t[2:]
            elif d[0] == "e" and r.random() < .4:
                t = '""'
            out.append(" " * r.choice([0, 0, 0, 1, 3]) + t + " " * r.choice([0, 0, 0, 1, 2]))
        return self.kw("DATA") + (" " if r.random() < .8 else "  ") + ",".join(out)


def make(rng):
    prog, body = [], []
    ndata = rng.choice([1, 2, 3, 5, 12])
    nl = rng.randint(0, 4)
    labels = ["D%d" % i for i in range(nl)]
    wide = rng.random() < .1          # lines up to what one DATA can hold
    blocks = []
    for i in range(ndata):
        its = []
        lim = rng.randint(60, 250)
        for _ in range(rng.choice([15, 40, 200] if wide else [1, 1, 2, 3, 6, 15])):
            its.append(item(rng))
            if len(L(rng).stmt(("data", its))) > (lim if wide else 70):
                its.pop()
                break
        its = its or [("n", "1")]
        if rng.random() < .03:
            its.append(("bad", "a b"))
        blocks.append(("data", its))
    # where the labels stand between the blocks
    seq = list(blocks)
    for l in labels:
        seq.insert(rng.randint(0, len(seq)), ("label", l))
    items, pos, lab = [], 0, {}
    for x in seq:
        if x[0] == "label":
            lab[x[1]] = len(items)
        else:
            items += x[1]
    u = 0
    code = []
    for _ in range(rng.randint(1, 12)):
        k = rng.random()
        if k < .25 and labels:
            l = rng.choice(labels)
            t = ("lab", l) if rng.random() < .5 else ("s", rng.choice([("str", b"@" + l.encode()), ("bin", "+", ("str", b"@" + l[:1].encode()), ("str", l[1:].encode())), ("var", "L$")]))
            if t == ("s", ("var", "L$")):
                code.append(let("L$", ("str", b"@" + l.encode())))
            code.append(("restore", t))
            pos = lab[l]
        elif k < .27:
            code.append(("restore", rng.choice([("lab", "NONE"), ("s", ("str", b"@NONE")), ("s", ("str", b"")), ("s", ("str", b"D0"))])))
        elif k < .45:
            n = rng.randint(1, 8)
            nm = "W%d$" % len(code)
            code += [("for", "I", num(0), num(n - 1), None), ("read", [("arr", nm, [var("I")])]), ("next", None)]
            pos += n
        else:
            lv = []
            for _ in range(rng.choice([1, 1, 2, 3, 6])):
                it = items[pos] if pos < len(items) else ("e", "")
                isnum = (it[0] in "en" or it[0] == "q" and isinstance(it[1], str) and rng.random() < .7) if rng.random() < .96 else rng.random() < .5
                isnum = isnum and rng.random() < .7
                u += 1
                if rng.random() < .4:
                    lv.append(("arr", ("B" if isnum else "B$"), [num(u % 10)]))
                else:
                    lv.append(("var", ("V%d" if isnum else "V%d$") % (u % 40)))
                pos += 1
            code.append(("read", lv))
    # a READ that lists a subscript read by itself
    if rng.random() < .1:
        code.append(("let", ("var", "Z"), num(1)))
    # mix code and data: any interleaving keeps both orders
    k = rng.random()
    if k < .3:
        prog = seq + code
    elif k < .6:
        prog = code + [("end",)] + seq
    else:
        prog, a, b = [], list(seq), list(code)
        while a or b:
            if a and (not b or rng.random() < .5):
                prog.append(a.pop(0))
            else:
                prog.append(b.pop(0))
    if rng.random() < .2:
        # the whole thing in a subroutine called twice
        prog = [("gosub", ("lab", "SUB")), ("gosub", ("lab", "SUB")), ("end",), ("label", "SUB")] + prog + [("return",)]
        prog = [x for x in prog[:4] + [y for y in prog[4:-1] if y != ("end",)] + prog[-1:]]
    return prog


def run():
    ck = Check("C11")
    ck.rule = "a case counts as distinct by its DATA items, READ lists and the end of the program"
    rng = ck.rng
    binp = build("asan")
    cases, noopts = [], {}
    for i in range(ck.n(2500, 40000)):
        acts, want = [], []
        m = Machine()
        opts = 2 if rng.random() < .3 else 0
        for _ in range(1 if opts else rng.choice([1, 1, 2])):
            prog = make(rng)
            if m.vars:
                prog = [("clear",)] + prog
            try:
                err = m.run(prog)
            except (Limit, Skip):
                break
            src = L(rng, 0, 0, rng.choice([0, .3]), rng.choice([0, .5, 1]), 0, rng.choice([0, .2])).source(prog)
            if src is None or any(len(x) > 99 for x in src.split("\r")):
                break
            acts += [prg(src, opts, 4000), "vars"] + ([direct("R_=0\r"), "pool"] if err and not opts else [])
            want.append((err, {k: v for k, v in m.vars.items() if k != "@arr"}, {k: (list(d), list(c)) for k, (d, c) in m.arrs.items()}, src, prog))
        if want:
            cases.append(Case("r%d" % i, acts, want))
            noopts[cases[-1].id] = not opts
    res = run_cases(binp, cases)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        before = 0
        for k, (err, mv, ma, src, prog) in enumerate(c.meta):
            o, vs = r.all("run")[k + before], r.all("vars")[k]
            before += bool(err and noopts[c.id])
            m = Machine()
            m.vars, m.arrs = mv, ma
            ck.count("end_" + E.name(err).replace("ERR_", ""))
            ck.count("items_in_source", sum(len(p[1]) for p in prog if p[0] == "data"))
            ck.count("values_compared", len(mv) + sum(len(x[1]) for x in ma.values()))
            if not same_err(o["err"], err):
                ck.violation("error:%s:%s" % (E.name(err), E.name(o["err"])), "expected %s, got %s\n%s" % (E.name(err), E.name(o["err"]), src.replace("\r", "\n")), case_text(c))
                break
            d = state_diff(m, vs)
            if d:
                ck.violation("value", d[:300] + "\n" + src.replace("\r", "\n"), case_text(c))
                break
            ck.sample(repr(src)[:160] + " -> " + E.name(err))
        for p in r.all("pool"):
            ck.count("pools_after_failed_reads")
            if p["bad"]:
                ck.violation("pool", p["why"] + "\n" + c.meta[-1][3].replace("\r", "\n"), case_text(c))
                break
        ck.case(tuple(w[3] for w in c.meta))
    return ck.finish(min_evals=1500)


if __name__ == "__main__":
    main(run, "C11")
