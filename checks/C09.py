#!/usr/bin/env python3
"""C09: arrays as independent, zeroed, bounds-checked cells within a fixed total."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gen import *

NAMES = ["A", "B", "AR", "AR2", "X", "LONG_ARRAY_NAME", "LONG_ARRAY_NAM2"]


def sub(rng, d):
    """a subscript expression for a dimension of d cells, mostly inside"""
    k = rng.random()
    if k < .65 and d:
        v = rng.choice([0, d - 1, rng.randrange(d), rng.randrange(d)])
        if rng.random() < .2:
            return ("num", "%d.%s" % (v, rng.choice(["5", "999", "25"])), None)
        if rng.random() < .2:
            return ("bin", "+", var("I0"), num(v))
        return num(v)
    return rng.choice([num(d), num(d + 1), num(-1), ("un", "-", ("num", ".5", 2048)), num(524287), ("un", "-", num(524287)), num(d * 2), num(65536), num(1 << 18), num(d - 1 if d else 0)])


def fixnum(x):
    if x[0] == "num" and x[2] is None:
        return ("num", x[1], parse_prefix(x[1].encode()))
    return x


def make(rng, limit):
    m, prog, u = Machine(), [let("I0", num(0))], 0
    known = {}
    for _ in range(rng.randint(5, 25)):
        k = rng.random()
        strv = rng.random() < .4
        nm = rng.choice(NAMES) + ("$" if strv else "")
        u += 1
        if k < .2:
            d = [rng.choice([1, 2, 3, 5, 10, 11, rng.randint(1, 30)])]
            if rng.random() < .5:
                d.append(rng.choice([1, 2, 3, 4, 7, rng.randint(1, 12)]))
            if nm in known and rng.random() < .85:
                continue
            lst = [(nm, [num(x) if rng.random() < .8 else ("bin", "-", num(x + 1), ("num", ".5", 2048)) for x in d])]
            known.setdefault(nm, d)
            if rng.random() < .3:
                n2 = rng.choice(NAMES) + ("$" if rng.random() < .5 else "")
                if n2 not in known:
                    known[n2] = [4]
                    lst.append((n2, [num(4)]))
            prog.append(("dim", lst))
            continue
        if nm not in known:
            known[nm] = [10] if rng.random() < .5 else [10, 10]
        dims = known[nm]
        inside = rng.random() < .94

        def at(nm):
            d = known[nm]
            return ("arr", nm, [fixnum(sub(rng, x)) if not inside else num(rng.randrange(x)) if x else num(0) for x in d])
        lv = at(nm)
        val = ("str", b"s%d" % u) if strv else num(u)
        if k < .6:
            prog.append(("let", lv, val))
        elif k < .7:
            prog.append(("let", ("var", "R$" if strv else "R"), lv))
        elif k < .78:
            o = [x for x in known if x.endswith("$") == strv]
            prog.append(("swap", lv, at(rng.choice(o))))
        elif k < .86:
            o = [x for x in known if x.endswith("$") == strv]
            prog.append(("let", lv, ("bin", "+", at(rng.choice(o)), val)))
        elif k < .9:
            # fill a whole dimension from a loop
            n = dims[0]
            idx = [var("I")] + ([num(rng.randrange(dims[1]))] if len(dims) > 1 else [])
            prog += [("for", "I", num(0), num(n - 1 if rng.random() < .9 else n), None), ("let", ("arr", nm, idx), val if strv else ("bin", "+", var("I"), val)), ("next", None)]
        elif k < .94:
            prog += [("read", [lv]), ("data", [("u" if strv else "n", "%d" % u)])]
        else:
            prog += [("print", [lv], [""])]
    return prog


def wide(rng, m, huge=False):
    """arrays with sides of more than 255 cells; huge: arrays of more than 65536 cells"""
    n = rng.choice([255, 256, 257, 300, 511, 512, 513, rng.randint(256, 700)])
    k = rng.choice([1, 2, 3, 5])
    if huge:
        k = rng.choice([40, 100, 128, 257])
        n = rng.randint(65537, 80000) // k + 1
    d = rng.choice([[n, k], [k, n], [n]])
    nm = rng.choice(["A", "B$", "WIDE", "W$"])
    prog = [("dim", [(nm, [num(x) for x in d])]), ("dim", [("Z", [num(300), num(2)])])]
    for u in range(rng.randint(20, 40) if huge else rng.randint(5, 25)):
        at = [rng.choice([0, 1, x - 1, x // 2, 255, 256, rng.randrange(x)]) % x for x in d]
        prog.append(("let", ("arr", nm, [num(x) for x in at]), ("str", b"w%d" % u) if nm.endswith("$") else num(u + 1)))
        prog.append(("let", ("arr", "Z", [num(rng.randrange(300)), num(rng.randrange(2))]), num(u + 1000)))
    if rng.random() < .3:
        prog.append(("let", ("arr", nm, [num(x + (j == 0)) for j, x in enumerate(d)]), ("str", b"w") if nm.endswith("$") else num(1)))
    src = plain(rng).source(prog)
    err = m.run(prog)
    return ["sys 256 512 %d" % (100000 if huge else 8192), prg(src, rng.choice([0, 2])), "vars"], [(err, {k: v for k, v in m.vars.items() if k != "@arr"}, {k: (list(d), list(c)) for k, (d, c) in m.arrs.items()}, src)]


def run():
    ck = Check("C09")
    ck.rule = "a case counts as distinct by array shapes, end of the program and number of cells written"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for i in range(ck.n(1200, 20000)):
        m, want = Machine(), []
        acts = []
        if rng.random() < .08:
            acts, want = wide(rng, m, rng.random() < .12)
            cases.append(Case("a%d" % i, acts, ("a", want)))
            continue
        for _ in range(rng.choice([1, 1, 2, 3])):
            prog = make(rng, None)
            if m.arrs and rng.random() < .3:
                prog = [("clear",)] + prog
            src = (plain if rng.random() < .5 else fancy)(rng).source(prog)
            if src is None:
                continue
            try:
                err = m.run(prog)
            except Skip:
                break
            acts += [prg(src, 2 if rng.random() < .3 and not want else 0), "vars"]
            last2 = acts[-2].split()[2] == "2"
            want.append((err, {k: v for k, v in m.vars.items() if k != "@arr"}, {k: (list(d), list(c)) for k, (d, c) in m.arrs.items()}, src))
            if last2:
                break
        if want:
            cases.append(Case("a%d" % i, acts, ("a", want)))
    # total size: arrays are created until the memory is full
    for i in range(ck.n(150, 2000)):
        lim = rng.choice([20, 50, 100, 300, 1000])
        acts, plan = ["sys 256 256 %d" % lim], []
        for j in range(rng.randint(3, 14)):
            nm = "M%d" % j + ("$" if rng.random() < .3 else "")
            k = rng.random()
            if k < .5:
                d = [rng.choice([1, lim // 4, lim // 2, lim, lim - 1, lim + 50, rng.randint(1, lim)])]
            elif k < .7:
                d = [rng.randint(1, max(2, int(lim ** .5))), rng.randint(1, max(2, int(lim ** .5) + 3))]
            elif k < .8:
                d = rng.choice([[65536, 65536], [524287, 524287], [65536, 65537], [262144, 16384], [1, 524287], [524287], [32768, 131072], [4, 262144]])
            else:
                d = None
            if d is None:
                two = rng.random() < .4
                acts.append(direct(nm + ("[1,1]=" if two else "[1]=") + ('"q%d"' % j if nm.endswith("$") else "%d" % (j + 1)) + "\r"))
                plan.append((nm, [10, 10] if two else [10], True, j))
            else:
                acts.append(direct("DIM " + nm + "(" + ",".join(map(str, d)) + ")\r"))
                plan.append((nm, d, False, j))
            # a mark in the last cell of every array so far that overlapping storage would show
            acts.append(direct('%s[%s]=%s\r' % (nm, ",".join(str(x - 1) for x in plan[-1][1]), '"e%d"' % j if nm.endswith("$") else 1000 + j)) if plan[-1][1][0] <= lim else direct("R=0\r"))
        acts.append("vars")
        cases.append(Case("m%d" % i, acts, ("m", lim, plan)))
    res = run_cases(binp, cases)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        runs, vs = r.all("run"), r.all("vars")
        if c.meta[0] == "a":
            for k, (err, mv, ma, src) in enumerate(c.meta[1]):
                m = Machine()
                m.vars, m.arrs = mv, ma
                ck.count("end_" + E.name(err).replace("ERR_", ""))
                ck.count("cells_compared", sum(len(x[1]) for x in ma.values()))
                if not same_err(runs[k]["err"], err):
                    ck.violation("error:%s" % E.name(err), "run %d: expected %s, got %s\n%s" % (k, E.name(err), E.name(runs[k]["err"]), src.replace("\r", "\n")), case_text(c))
                    break
                d = state_diff(m, vs[k])
                if d:
                    ck.violation("cells", "after run %d (%s): %s\n%s" % (k, E.name(err), d[:300], src.replace("\r", "\n")), case_text(c))
                    break
            ck.case((err, tuple(sorted((k, tuple(v[0])) for k, v in ma.items()))))
            ck.sample("%s -> %s" % (src.replace("\r", "|")[:100], E.name(err)))
        else:
            _, lim, plan = c.meta
            m = Machine()
            used = cells = 0
            for j, (nm, d, implicit, _j) in enumerate(plan):
                e1, e2 = runs[2 * j]["err"], runs[2 * j + 1]["err"]
                size = d[0] * (d[1] if len(d) > 1 else 1)
                if e1 == 0:
                    m.dims(nm, d)
                    cells += size
                    if cells > lim + 2 * 256:
                        ck.violation("total", "arrays with %d cells fit in memory for %d" % (cells, lim), case_text(c))
                        break
                    strv = nm.endswith("$")
                    if implicit:
                        m.put(m.ref(("arr", nm, [num(1)] * len(d))), b"q%d" % _j if strv else (_j + 1) << 12)
                    if d[0] <= lim:
                        if e2:
                            ck.violation("lastcell", "last cell of %s%s not accessible: %s" % (nm, d, E.name(e2)), case_text(c))
                            break
                        m.put(m.ref(("arr", nm, [num(x - 1) for x in d])), b"e%d" % _j if strv else (1000 + _j) << 12)
                else:
                    ck.count("rejected_arrays")
                    if e1 != E.OUT_OF_MEMORY:
                        ck.violation("oom", "array %s%s that does not fit is reported as %s" % (nm, d, E.name(e1)), case_text(c))
                        break
                    if cells + size <= lim - 2 * j - 4:
                        ck.violation("fits", "%s%s rejected although %d of %d cells are used" % (nm, d, cells, lim), case_text(c))
                        break
                    # the mark afterwards may have created a default array
                    if d[0] <= lim and e2 in SUBSCRIPT:
                        cells += 10 ** len(d)
                    if e2 == 0 and d[0] <= lim:
                        m.dims(nm, [10] * len(d))
                        cells += len(m.arrs[nm][1])
                        m.put(m.ref(("arr", nm, [num(x - 1) for x in d])), b"e%d" % _j if nm.endswith("$") else (1000 + _j) << 12)
            else:
                ck.case((lim, cells, len(m.arrs)))
                d = state_diff(m, vs[0])
                if d:
                    ck.violation("overlap", d[:300], case_text(c))
    return ck.finish(min_evals=800)


if __name__ == "__main__":
    main(run, "C09")
