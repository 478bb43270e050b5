#!/usr/bin/env python3
"""C12: every label resolves to its own line, for any number of labels and any way to name the target."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mini import *

FIRST = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcz0189"
LIMIT = 2048


def family(rng, n):
    """n different names that are easily taken for one another"""
    out = set()
    style = rng.randrange(7)
    base = "".join(rng.choice(FIRST) for _ in range(rng.randint(1, 10)))
    while len(out) < n:
        k = style if rng.random() < .8 else rng.randrange(7)
        if k == 0:
            out.add("L%d" % rng.randrange(n * 2 + 2))
        elif k == 1:        # long names that differ late
            out.add((base + "X" * 16)[:12] + "%04d" % rng.randrange(10000))
        elif k == 2:        # differ early
            out.add("%04d" % rng.randrange(10000) + (base + "Y" * 16)[:12])
        elif k == 3:        # the same characters in different orders
            l = list("ABCDEFGH"[:rng.randint(2, 8)] + "1122334455"[:rng.randint(0, 8)])
            rng.shuffle(l)
            out.add("".join(l))
        elif k == 4:        # prefixes of one another
            out.add(("".join(rng.choice("AB_") for _ in range(16)))[:rng.randint(1, 16)])
        elif k == 5:
            out.add("".join(rng.choice(FIRST) for _ in range(rng.choice([1, 2, 3, 4, 8, 15, 16]))))
        else:
            s = list("LABELNAME")
            out.add("".join(c.lower() if rng.random() < .5 else c for c in s) + str(rng.randrange(n + 1)))
    out = list(out)
    rng.shuffle(out)
    return out


def strexpr(rng, name):
    """string expressions whose value is @name"""
    t = "@" + name
    k = rng.randrange(6)
    if k == 0:
        return '"%s"' % t
    if k == 1:
        i = rng.randint(0, len(t))
        return '"%s"+"%s"' % (t[:i], t[i:])
    if k == 2:
        return 'CHR$(64)+"%s"' % name
    if k == 3:
        return 'MID$("xx%syy",2,%d)' % (t, len(t))
    if k == 4:
        return 'LEFT$("%s????????",%d)' % (t, len(t))
    return 'RIGHT$("ab%s",%d)' % (t, len(t))


def bad(rng, names):
    """strings that are not the name of any label"""
    n = rng.choice(names)
    ns = set(names)
    c = [n, "", "@", "@@" + n, n[:1] + "@" + n[1:], " @" + n, "@ " + n, "@" + n + " ", "@" + n + ":", "@" + (n * 17)[:17], "@" + (n * 17)[:17 + rng.randint(0, 40)], "X" + n, "@" + n[:-1], "@" + n + "_", "@" + n.swapcase(),
         "@" + n + "\r", "@" + n[:-1] + "$", "@" + "Q" * 300, "@" + n + "\0", "@" + n + "\0" + n, "@\0" + n, "\0"][:rng.randint(1, 22)]
    if rng.random() < .1:
        c = c[-4:]
    s = rng.choice(c)[:200]
    if s[1:] in ns and s[:1] == "@":
        return None
    return s


def run():
    ck = Check("C12")
    ck.rule = "a case counts as distinct by its set of labels and the visited sequence"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for i in range(ck.n(2500, 20000)):
        n = rng.choice([1, 2, 3, 5, 8, 15, 30, 60, 120] if rng.random() < .96 else [300, 700, 1500, 2047, 2048])
        names = family(rng, n)
        idx = {x: j for j, x in enumerate(names)}
        visit, lines, err = [], [], 0
        steps = names[:] if n > 120 or rng.random() < .4 else [rng.choice(names) for _ in range(rng.randint(1, 12))]
        rng.shuffle(steps)
        jl = 0
        for x in steps:
            k = rng.random()
            if k < .25:
                lines.append("GOSUB @" + x)
            elif k < .45:
                e = strexpr(rng, x)
                lines.append(("GOSUB " + e) if len(e) < 90 else "GOSUB @" + x)
            elif k < .55:
                lines += ["A$=" + ('"@%s"' % x), rng.choice(["GOSUB A$", "B$[3]=A$:GOSUB B$[3]", "SWAP A$,C$:GOSUB C$"])]
            elif k < .65:
                o = [rng.choice(names) for _ in range(rng.randint(1, 3))]
                p = rng.randint(0, len(o))
                o.insert(p, x)
                lines.append("ON %d GOSUB %s" % (p, ",".join("@" + y for y in o)))
                if len(lines[-1]) > 99:
                    lines[-1] = "GOSUB @" + x
            elif k < .7:
                lines.append("IF 1 THEN GOSUB @%s ELSE GOSUB @%s" % (x, rng.choice(names)))
                if len(lines[-1]) > 99:
                    lines[-1] = "GOSUB @" + x
            elif k < .76:
                # jumps through a label of the main part
                jl += 1
                l = "_J%d" % jl
                if l in idx:
                    continue
                lines += ["GOTO " + rng.choice(["@" + l, '"@%s"' % l]), "T[N]=-1:N=N+1", "@" + l, "GOSUB @" + x]
            elif k < .9:
                lines += ["RESTORE " + rng.choice(["@" + x, strexpr(rng, x)[:80] if len(strexpr(rng, x)) < 80 else "@" + x]), "READ V:T[N]=V:N=N+1"]
                if any(len(z) > 99 for z in lines[-2:]) or lines[-2].count('"') % 2 or lines[-2].count("(") != lines[-2].count(")"):
                    lines[-2] = "RESTORE @" + x
                visit.append(5000 + idx[x])
                continue
            else:
                lines.append("GOSUB @" + x)
            visit.append(idx[x])
        dup = None
        fail = rng.random()
        if fail < .12:
            b = bad(rng, names)
            if b is not None and not any(b[1:] == "_J%d" % j for j in range(1, jl + 1)):
                chunks = [b[q:q + 40] for q in range(0, len(b), 40)] or [""]
                exp = []
                for ch in chunks:
                    exp.append("+".join(("CHR$(%d)" % ord(p) if p in "\r\0" else '"%s"' % p) for p in re.findall(r"[\r\0]|[^\r\0]+", ch)) or '""')
                lines.append('X$=""')
                for e in exp:
                    lines.append("X$=X$+" + e)
                lines.append(rng.choice(["GOSUB X$", "GOTO X$", "RESTORE X$"]))
                err = E.LABEL_NOT_FOUND
        elif fail < .16:
            u = "NOT_THERE"
            if u not in idx:
                lines.append(rng.choice(["GOSUB @", "GOTO @", "RESTORE @", "ON 0 GOTO @", "IF 1 THEN @"]) + u)
                err = E.LABEL_NOT_FOUND
        subs = []
        order = names[:]
        rng.shuffle(order)
        for x in order:
            k = idx[x]
            f = rng.random()
            if f < .6:
                subs += ["@" + x, "DATA %d" % (5000 + k), "T[N]=%d:N=N+1:RETURN" % k]
            elif f < .8:
                subs += ["@%s%sT[N]=%d:N=N+1" % (x, rng.choice([":", " "]), k), "DATA %d" % (5000 + k), "RETURN"]
            else:
                subs += ["@" + x, "T[N]=%d:N=N+1" % k, "RETURN:'", "DATA %d,9" % (5000 + k)]
        head = ["DIM T[%d]:N=0" % (len(visit) + 8)]
        total = n + jl
        room = total < LIMIT
        toterr = None
        if err == 0 and fail > .85 and total <= LIMIT:
            # a definition that is not possible, reached at the end of the main part
            q = rng.random()
            if q < .5 and total < LIMIT:
                src = head + ["GOTO @_MAIN"] + subs + ["@_MAIN"] + lines + ["@" + rng.choice(names), "T[N]=-7:N=N+1"]
                toterr = E.LABEL_ADD_FAILURE
            elif q < .8 and total <= LIMIT:
                src = head + lines + ["@" + rng.choice(["Z" * rng.randint(17, 60), "", (names[0] * 17)[:17]]), "T[N]=-7:N=N+1"] + subs
                toterr = -2
            else:
                fill = family(rng, LIMIT)
                fill = ["@" + x + "_"[:16 - len(x)] for x in fill]
                have = {"@" + x for x in names} | {l for l in lines if l[:1] == "@"}
                fill = [x for x in dict.fromkeys(fill) if x not in have]
                k = LIMIT - total
                if len(fill) < k + 1:
                    continue
                src = head + lines + ["GOTO @_X"] + subs + fill[:k - 1] + ["@_X", fill[k], "T[N]=-7:N=N+1"] if k > 0 else head + lines + ["@_X", "T[N]=-7:N=N+1"]
                if k <= 0:
                    continue
                toterr = E.LABEL_ADD_FAILURE
        elif rng.random() < .5 or not room:
            src = head + lines + ["END"] + subs
        else:
            src = head + ["GOTO @_MAIN"] + subs + ["@_MAIN"] + lines
        how = rng.choice([0, 0, 0, 1, 2, 3, 4])  # the other ways to write a definition
        if how:
            def define(l):
                if l[:1] != "@" or len(l) > 92 or not re.match(r"@\w{1,16}(?!\w)", l) or how == 4 and rng.random() < .5:
                    return l
                if how == 1 or how == 4 and rng.random() < .3:
                    return " " * rng.randint(1, 5) + l
                w = "LABEL" if how == 2 else "label" if how == 3 else rng.choice(["LABEL", "label", "Label", "laBEL", " LABEL", "  label"])
                return w + " " * rng.randint(1, 2) + l[1:]
            src = [define(l) for l in src]
        if total > LIMIT or "_MAIN" in idx or "_X" in idx or any(len(l) > 100 for l in src):
            continue
        before = []
        if rng.random() < .5:
            # other programs ran before in the same session: none of their labels exist any more
            for q in range(rng.choice([1, 1, 2])):
                old = family(rng, rng.choice([5, 30, 300, 2000]))
                if rng.random() < .6:
                    old = list(dict.fromkeys((x + "".join(rng.choice(FIRST) for _ in range(16)))[:rng.choice([16, 16, 15])] for x in old))
                before.append(prg("".join(rng.choice(["@%s\r"] * 3 + ["label %s\r", "   @%s\r", "LABEL %s\r"]) % x for x in old), rng.choice([0, 2]), 10000))
        cases.append(Case("l%d" % i, before + [prg("\r".join(src) + "\r", rng.choice([0, 2]), 10000), "arr T", "var N"], (names, visit, err, toterr, src, len(before))))
    res = run_cases(binp, cases, cpu=60)
    for c in cases:
        names, visit, err, toterr, src, nb = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        o = r.get("run", nb)
        if any(r.get("run", q)["err"] for q in range(nb)):
            ck.count("earlier_program_failed")
        text = "\n".join(src)[:3000]
        ck.case((tuple(names[:50]), tuple(visit[:50])))
        ck.count("labels_defined", len(names))
        if toterr is not None:
            ck.count("rejected_definitions")
            if (o["err"] != toterr) if toterr != -2 else (o["err"] in (0, 9999)):
                ck.violation("definition", "expected %s, got %s\n%s" % (E.name(toterr), E.name(o["err"]), text), case_text(c))
                continue
            err = o["err"]
        ck.count("jumps_checked", len(visit))
        if o["err"] != err:
            ck.violation("error", "expected %s, got %s\n%s" % (E.name(err), E.name(o["err"]), text), case_text(c))
            continue
        got = [x >> 12 for x in r.get("arr")["v"][:r.get("var")["v"] >> 12]]
        if got != visit:
            k = next((j for j, (a, b) in enumerate(zip(got, visit)) if a != b), min(len(got), len(visit)))
            ck.violation("target", "visit %d: %s instead of %s\n%s" % (k, got[k:k + 3], [(v, names[v % 5000]) for v in visit[k:k + 3]], text), case_text(c))
            continue
        ck.sample("%d labels like @%s, %d visits" % (len(names), names[0], len(visit)))
    return ck.finish(min_evals=500)


if __name__ == "__main__":
    main(run, "C12")
