#!/usr/bin/env python3
"""C29: a probe program after a history of finished, failed and interrupted runs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gen import *

# statements that end a run badly, most of them with something left over
BAD = [
    (b"GOSUB @A\r@A\rGOSUB @B\r@B\rFOR I=0 TO 3\rRETURN:RETURN:RETURN\r", "RETURN_WITHOUT_GOSUB"),
    (b"FOR I=0 TO 5\rFOR J=0 TO 5\rA=1/0\r", "DIVIDE_BY_ZERO"),
    (b"@A\rGOSUB @A\r", "OUT_OF_MEMORY"),
    (b"READ A,B,C\rDATA 1,2\r", "OUT_OF_DATA"),
    (b"READ A,B\rDATA 1,x,5\r", "READ_FAILURE"),
    (b"A=LEN(A$+B$+(S$+\"xx\")+STR$(1/0))\r", "DIVIDE_BY_ZERO"),
    (b"A$=(A$+\"abc\")*9999\r", "STRING_TOO_LONG"),
    (b"DIM DD(3)\rDIM DD(3)\r", "DUPLICATE_DIM"),
    (b"GOTO @NONE\r", "LABEL_NOT_FOUND"),
    (b"A=1:STOP:A=2\r", "BREAK"),
    (b"NEXT\r", "NEXT_WITHOUT_FOR"),
    (b"FOR I=1 TO 0\rA=1\r", "FOR_WITHOUT_NEXT"),
    (b"A=SQR(-1)+LEN(A$+\"q\")\r", "ILLEGAL_FUNCTION_CALL"),
    (b"LOCATE 1,2:PRINT \"ab\"+\"cd\";A$+STR$(1/0)\r", "DIVIDE_BY_ZERO"),
    (b"A=524287+1\r", "OVERFLOW"),
    (b"X1$=CHR$(-1)\r", "OUT_OF_RANGE"),
    (b"A=UU[99]\r", "SUBSCRIPT_OUT_OF_RANGE_X"),
    (b"@A\r@A\r", "LABEL_ADD_FAILURE"),
    (b"A=\r", None), (b"PRINT (1\r", None), (b"A=@\r", None), (b"B$=5\r", None), (b"FOR A$=0 TO 1\r", None), (b"SWAP A,B$\r", None),
    (b"ZZ[1,2,3]=5\r", None), (b"A=LEFT$(\"a\")\r", None), (b"&\r", None), (b"GOSUB\r", None), (b"READ 5\r", None), (b"LABEL\r", None),
]


def hist_item(rng):
    """(action, effect on machine, expected error or None, kind)"""
    k = rng.random()
    if k < .35:
        src, e = rng.choice(BAD)
        return ("bad", src, e)
    if k < .5:
        # endless program stopped from outside
        src = rng.choice([b"@L\rGOTO @L\r", b"@L\rFOR I=0 TO 2:NEXT:A$=A$+\"a\":A$=\"\":GOTO @L\r", b"FOR I=0 TO 1\rI=0\rNEXT\r",
                          b"@L\rFOR I=0 TO 9:C=C+1:C=0:GOSUB @S:NEXT:GOTO @L\r@S\rRETURN\r"])
        return ("stop", src, None)
    return ("gen", None, None)


def run():
    ck = Check("C29")
    ck.rule = "a history counts as distinct by the kinds and errors of its runs"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for i in range(ck.n(500, 12000)):
        acts, exp = [], []
        key = []
        for _ in range(rng.randint(1, 5)):
            kind, src, e = hist_item(rng)
            if kind == "bad":
                acts.append((direct if rng.random() < .3 else prg)(src))
                exp.append(("bad", E._d["ERR_" + e] if e else None))
                key.append(src)
            elif kind == "stop":
                acts.append(prg(src, 0, rng.randint(2, 6)))
                exp.append(("stop", 9999))
                key.append(src)
            else:
                while True:
                    g = Gen(rng, rich=rng.random() < .6)
                    pr = g.program() if rng.random() < .7 else g.soup()
                    # variables of generated history programs are prefixed so that they do not matter
                    m2 = Machine()
                    try:
                        err = m2.run([("clear",)] + pr, 4000)
                    except (Limit, Skip):
                        continue
                    s = plain(rng).source([("clear",)] + pr)
                    if s:
                        break
                acts.append(prg(s, 0, 8000))
                exp.append(("gen", err))
                key.append(E.name(err))
        # ERR before the next run
        acts += [direct("ZERR=ERR\r"), "var ZERR"]
        # the probe starts by clearing nothing: its result is compared with a fresh system
        while True:
            g = Gen(rng, rich=rng.random() < .7)
            pr = g.program() if rng.random() < .8 else g.soup()
            own = rng.random() < .5
            if own:     # variables nothing before has used
                pr = rename(pr, lambda n: n[:-1] + "_P$" if n.endswith("$") else n + "_P")
            mp = Machine()
            try:
                perr = mp.run([("clear",)] + pr, 4000)
            except (Limit, Skip):
                continue
            s = fancy(rng).source(pr)
            if s:
                break
        # CLEAR gives the variables of a fresh system
        if own:
            acts += [direct("A=1\r"), prg(s, 0, 8000)]
        elif rng.random() < .5:
            acts += [direct("CLEAR\r"), prg(s, 0, 8000)]
        else:
            acts += [direct("A=1\r"), prg("CLEAR\r" + s, 0, 8000)]
        acts += [ "vars", direct("ZERR=ERR\r"), "var ZERR", direct("R=0\r"), "pool", "con"]
        cases.append(Case("h%d" % i, acts, (exp, key, mp, perr, s, own)))
    res = run_cases(binp, cases)
    for c in cases:
        exp, key, mp, perr, s, own = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        runs = r.all("run")
        ck.case(tuple(key))
        bad = False
        last = 0
        for k, (kind, want) in enumerate(exp):
            got = runs[k]["err"]
            ck.count("history_" + kind)
            if kind == "stop":
                bad |= got != 9999
            elif want is not None:
                bad |= not same_err(got, want)
            if bad:
                ck.violation("history:%s" % kind, "run %d of the history ended with %s, expected %s" % (k, E.name(got), E.name(want)), case_text(c))
                break
            last = got or last
        if bad:
            continue
        errs = r.all("var")
        if last != 9999 and errs[0]["v"] != last << 12:
            ck.violation("ERR", "ERR is %s after a run that ended with %s" % (errs[0]["v"] / 4096, E.name(last)), case_text(c))
            continue
        o = runs[len(exp) + 2]
        if not same_err(o["err"], perr):
            ck.violation("probe-error:%s:%s" % (E.name(perr), E.name(o["err"])), "probe ended with %s, in a fresh system with %s\n%s" % (E.name(o["err"]), E.name(perr), s.replace("\r", "\n")), case_text(c))
            continue
        vo = r.get("vars")
        if own:
            vo["v"] = [v for v in vo["v"] if v[0].endswith("_P")]
            ck.count("probes_with_own_variables")
        d = state_diff(mp, vo)
        if d:
            ck.violation("probe-state", d[:300] + "\n" + s.replace("\r", "\n"), case_text(c))
            continue
        if (perr or last != 9999) and not same_err(errs[1]["v"] >> 12, perr or last):
            ck.violation("ERR", "ERR is %s after the probe ended with %s" % (errs[1]["v"] / 4096, E.name(perr)), case_text(c))
        if r.get("pool")["bad"]:
            ck.violation("pool", r.get("pool")["why"], case_text(c))
        ck.sample("history %s -> probe %s" % (key, E.name(perr)))
    return ck.finish(min_evals=500)


if __name__ == "__main__":
    main(run, "C29")
