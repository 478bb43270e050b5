#!/usr/bin/env python3
"""C08: variables are told apart by complete name and type, persist between runs, and CLEAR empties them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gen import *

FIRST = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz_"
REST = FIRST + "0123456789"
RESERVED = None


def reserved():
    global RESERVED
    if RESERVED is None:
        t = open(os.path.join(REPO, "source/interpreter/tokens.c"), errors="replace").read()
        RESERVED = set(w.upper().rstrip("$") for s in re.findall(r'"([^"\n]*)"', t) for w in s.split() if re.fullmatch(r"[A-Za-z][A-Za-z0-9]*\$?", w))
    return RESERVED


def rnd_name(rng):
    while True:
        n = rng.choice([1, 1, 2, 2, 3, 5, 8, 15, 16, 16])
        s = rng.choice(FIRST) + "".join(rng.choice(REST) for _ in range(n - 1))
        if s.upper() not in reserved():
            return s


def relatives(rng, n):
    """names that are easily taken for one another"""
    out = {n}
    for _ in range(rng.randint(0, 4)):
        k = rng.randrange(6)
        if k == 0 and len(n) < 16:
            m = n + rng.choice(REST)
        elif k == 1 and len(n) > 1:
            m = n[:-1]
        elif k == 2:
            m = n[:-1] + rng.choice(REST) if len(n) > 1 else rng.choice(FIRST)
        elif k == 3:
            m = n.swapcase()
        elif k == 4 and len(n) > 2:
            l = list(n[1:])
            rng.shuffle(l)          # same characters, other order: same additive hash
            m = n[0] + "".join(l)
        else:
            m = n + "_" * (16 - len(n)) if len(n) < 16 else n[:15] + "_"
        if m and m[0] in FIRST and len(m) <= 16 and m.upper() not in reserved():
            out.add(m)
    return list(out)


def random_prog(rng, pool, uid):
    prog = []
    for _ in range(rng.randint(3, 14)):
        k = rng.random()
        nm = rng.choice(pool)
        uid[0] += 1
        u = uid[0]
        strv = rng.random() < .5
        name = nm + "$" if strv else nm
        val = ("str", b"v%d" % u) if strv else num(u % 500000)
        r = rng.random()
        if k < .5:
            lv = ("var", name) if r < .6 else ("arr", name, [num(rng.randint(0, 9))])
            prog.append(("let", lv, val))
        elif k < .6:
            o = rng.choice(pool) + ("$" if strv else "")
            a = ("var", name) if r < .6 else ("arr", name, [num(rng.randint(0, 9))])
            b = ("var", o) if rng.random() < .6 else ("arr", o, [num(rng.randint(0, 9))])
            prog.append(("swap", a, b))
        elif k < .8:
            o = rng.choice(pool) + ("$" if strv else "")
            src = ("var", o) if r < .6 else ("arr", o, [num(rng.randint(0, 9))])
            if strv:
                src = ("bin", "+", src, ("str", b"x")) if r < .3 else src
            else:
                src = ("bin", "+", src, num(1)) if r < .3 else src
            prog.append(("let", ("var", name), src))
        elif k < .85:
            prog += [("for", nm, num(u % 100), num(u % 100 + 2), None), ("next", rng.choice([nm, None]))]
        elif k < .9:
            prog += [("read", [("var", name)]), ("data", [("u" if strv else "n", "%d" % u)])]
        elif k < .94:
            prog.append(("dim", [(name, [num(rng.randint(10, 14))])]))
        elif k < .97:
            prog.append(("print", [("var", name)], [";"]))
        else:
            prog.append(("let", ("var", nm), num(5)))
    return prog


def run():
    ck = Check("C08")
    ck.rule = "a case counts as distinct by its set of names and the values they ended with"
    rng = ck.rng
    binp = build("asan")
    cases = []
    # 1. histories of programs over a pool of similar names
    for i in range(ck.n(1200, 15000)):
        pool = []
        for _ in range(rng.randint(1, 6)):
            pool += relatives(rng, rnd_name(rng))
        m, uid = Machine(), [rng.randint(1, 1000)]
        mode = rng.random()
        opts = 2 if mode < .3 else 0
        acts = ["sys %d" % rng.choice([256, 512, 2048])]
        want = []
        for run_no in range(1 if opts else rng.randint(1, 5)):
            prog = random_prog(rng, pool, uid)
            if not opts and rng.random() < .15:
                prog.insert(rng.randint(0, len(prog)), ("clear",))
            src = plain(rng).source(prog)
            if src is None:
                continue
            err = m.run(prog)
            if len(src) < 100 and rng.random() < .3 and not opts and not any(p[0] in ("data", "read") for p in prog):
                acts.append(direct(src.replace("\r", ":")[:-1] + "\r"))
            else:
                acts.append(prg(src, opts))
            acts.append("vars")
            want.append((err, {k: v for k, v in m.vars.items() if k != "@arr"}, {k: (list(d), list(c)) for k, (d, c) in m.arrs.items()}, src))
        if want:
            cases.append(Case("h%d" % i, acts, ("h", pool, want)))
    # 2. running out of slots
    for i in range(ck.n(60, 800)):
        lim = rng.choice([8, 16, 32, 64, 128])
        names = set()
        while len(names) < lim * 2:
            names.update(x + s for x in relatives(rng, rnd_name(rng)) for s in ("", "$"))
        names = sorted(names)
        rng.shuffle(names)
        acts, order, made, vals = ["sys %d" % lim], [], {}, {}
        for j, nm in enumerate(names[:lim * 2]):
            k = rng.random()
            if k < .7 or not order:
                arr = rng.random() < .2
                order.append((nm, arr))
            else:
                order.append(rng.choice(order))
            nm, arr = order[-1]
            loc = nm + "[3]" if arr else nm
            acts.append(direct(loc + "=" + ('"s%d"' % j if nm.endswith("$") else str(j)) + "\r"))
        acts.append("vars")
        cases.append(Case("f%d" % i, acts, ("f", lim, order)))
    res = run_cases(binp, cases)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        runs, vs = r.all("run"), r.all("vars")
        if c.meta[0] == "h":
            _, pool, want = c.meta
            ck.case((tuple(sorted(pool)), repr(sorted(want[-1][1].items()))))
            for k, (err, mv, ma, src) in enumerate(want):
                m = Machine()
                m.vars, m.arrs = dict(mv), ma
                ck.count("runs")
                ck.count("variables_compared", len(mv) + len(ma))
                if not same_err(runs[k]["err"], err):
                    ck.violation("error", "run %d: expected %s, got %s\n%s" % (k, E.name(err), E.name(runs[k]["err"]), src.replace("\r", "\n")), case_text(c))
                    break
                d = state_diff(m, vs[k])
                if d:
                    ck.violation("value", "after run %d: %s\n%s" % (k, d[:300], src.replace("\r", "\n")), case_text(c))
                    break
            ck.sample("%d names, %d runs" % (len(pool), len(want)))
        else:
            _, lim, order = c.meta
            exist, m = {}, Machine()
            full = 0
            for j, (nm, arr) in enumerate(order):
                e = runs[j]["err"]
                new = (nm, arr) not in exist
                if e == 0:
                    if len(exist) >= lim and new:
                        ck.violation("slots", "variable %d of at most %d was created" % (len(exist) + 1, lim), case_text(c))
                        break
                    exist[nm, arr] = 1
                    v = b"s%d" % j if nm.endswith("$") else j << 12
                    if arr:
                        m.put(m.ref(("arr", nm, [num(3)])), v)
                    else:
                        m.vars[nm] = v
                elif not new:
                    ck.violation("existing", "assignment to existing %s failed with %s when %d of %d slots are used" % (nm, E.name(e), len(exist), lim), case_text(c))
                    break
                elif len(exist) < lim:
                    ck.violation("early", "%s with only %d of %d slots used" % (E.name(e), len(exist), lim), case_text(c))
                    break
                elif e not in (E.OUT_OF_MEMORY, E.VARIABLE_CREATION_FAIL):
                    ck.violation("error", "no slot left is reported as %s" % E.name(e), case_text(c))
                    break
                else:
                    full += 1
            else:
                d = state_diff(m, vs[0])
                ck.count("rejected_for_lack_of_slots", full)
                ck.case(("full", lim, len(exist), full))
                if d:
                    ck.violation("intact", "after running out of slots: " + d[:300], case_text(c))
    return ck.finish(min_evals=400)


if __name__ == "__main__":
    main(run, "C08")
