#!/usr/bin/env python3
"""C28: the same program in many layouts and both variable modes, against the reference interpreter and each other."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gen import *


def layouts(rng):
    return [("plain", plain(rng), 0), ("ids", plain(rng), 2), ("fancy", fancy(rng), 0), ("fancy_ids", fancy(rng), 2),
            ("joined", Layout(rng, join=1), rng.choice([0, 2])), ("lower", Layout(rng, lower=1, spaces=.3), rng.choice([0, 2])),
            ("nolabels", fancy(rng), rng.choice([1, 3])), ("commented", Layout(rng, comments=.5, blank=.4), rng.choice([0, 2]))]


# Statements over all parts of the system: what they do must not depend on where the line breaks are.
POOL = """TABSTEP={t}|TABSTEP={v}|PRINT {v},{v}|PRINT {v};{s},{v}|PRINT A;B$,C|?{s}|CSR=CSRX+100*CSRY|ICONPUSE={b}|ICONPMAX={t}:ICONPAGE={b}|ICONPAGE={t}
P=ICONPAGE|Q=ICONPMAX*8+ICONPUSE|MEM$={s}|MEM$=MEM$+{s}|M$=MEM$|SWAP M$,MEM$|READ TABSTEP|READ MEM$|READ A|READ B$|RESTORE @D
A={v}|B$={s}|C=A*2+{v}|DIM X{i}(4)|A(2)={v}|A=A(2)|SWAP A,C|SWAP A,TABSTEP|SORT 0,3,A|LOCATE {x},{y}|COLOR {c}|CLS|ON {b} GOSUB @S,@S
GPAGE 0|GCLS {c}|GCOLOR {c}|GPSET {x},{y}|GLINE {x},{y},{t},{v}|GBOX {x},{y},{c},{t}|GFILL {x},{y},{c},{t},{c}|GCIRCLE {x},{y},{c}|GPAINT {x},{y},{c}
BGPAGE 0|BGPUT 0,{x},{y},{t},{b},0,1|BGFILL 0,{x},{y},{t},{c},3,2,0,1|BGOFS 0,{x},{y}|BGCLIP 0,0,20,20|BGREAD (0,{x},{y}),E,F,G,H
SPPAGE 0|SPSET {c},{t},0,0,0,1|SPOFS {c},{x},{y}|SPCHR {c},{t}|SPANGLE {c},{x}|SPSCALE {c},{t}|SPHOME {c},1,1|SPREAD({c}),E,F
GOSUB @S|FOR I=0 TO {b}:PRINT I,:NEXT|VISIBLE 1,1,1,1,1,1|CHRSET"BGU0",{c},"0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF"
COLSET"COL2",{c},"0{c}F5"|PNLTYPE"OFF"|PNLSTR {x},{y},{s},{c}|ICONSET 0,{c}|ICONCLR|ACLS|MEMSAFE={v}|H=MEMSAFE|KEY 1,{s}|A=SPHITNO|E=ERR+ERL""".replace("\n", "|").split("|")


def fill(rng, t):
    for k, f in (("t", lambda: rng.randrange(0, 18)), ("v", lambda: rng.choice(["0", "1", "7.5", "-3", "A", "250"])), ("b", lambda: rng.randrange(2)),
                 ("s", lambda: rng.choice(['"X"', '""', '"AB"+B$', 'M$', '"q:r"'])), ("i", lambda: rng.randrange(3)), ("x", lambda: rng.randrange(32)),
                 ("y", lambda: rng.randrange(24)), ("c", lambda: rng.randrange(10))):
        while "{%s}" % k in t:
            t = t.replace("{%s}" % k, str(f()), 1)
    return t


def pool_prog(rng):
    return [fill(rng, rng.choice(POOL)) for _ in range(rng.randrange(2, 12))]


def pool_src(rng, st, join):
    out, line = [], ""
    for t in st:
        if line and rng.random() < join and len(line) + len(t) < 95:
            line += rng.choice([":", " : ", "::"]) + t
        else:
            if line:
                out.append(line)
            line = t
    return "FOR I=0 TO 9:SPSET I,0,0,0,0,1:NEXT\r" + "\r".join(out + [line, "END", "@S", "N=N+1", "RETURN", "@D", "DATA 7,3,1,2,6,5,4,3,12,16,2,9"]) + "\r"


def branch_src(rng, st, taken):
    """the same statements in the branch of an IF that is taken, others in the one that is not"""
    out, rest = [], list(st)
    while rest:
        n = rng.randint(1, 3)
        part, rest = rest[:n], rest[n:]
        t = ":".join(part)
        if "FOR" in t or len(t) > 90:
            out += part
            continue
        if taken:
            other = ":".join(x for x in pool_prog(rng)[:rng.randint(1, 2)] if "FOR" not in x and len(x) < 40) or "A=A"
            out.append(rng.choice(["IF {1} THEN {0} ELSE {2}", "IF 0 THEN {2} ELSE {0}", "IF {1} THEN {0}", "IF 0 THEN {2} ELSE IF {1} THEN {0}"]).format(t, rng.choice(["1", "TRUE", "-1", "2>1", '"A"<"B"']), other))
        else:
            out += part
    return out


def pool_part(ck, binp):
    rng = ck.rng
    cases = []
    watch = ["vars", "con", "grp 0", "gstate", "bg", "tiles 0 0", "spr 0", "panel", direct("R=0\r"), "pool"]
    for i in range(ck.n(500, 8000)):
        st = pool_prog(rng)
        for name, join, opts in (("split", 0, 0), ("joined", 1, 0), ("mixed", .6, 2), ("branches", 0, rng.choice([0, 2]))):
            src = pool_src(rng, branch_src(rng, st, 1) if name == "branches" else st, join)
            cases.append(Case("q%d_%s" % (i, name), [prg(src, opts, 8000)] + watch, (i, name, src)))
    res = run_cases(binp, cases)
    first = {}
    for c in cases:
        i, name, src = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        # variable slots and error texts name places, the rest is what the program did
        # (variables that still have their initial value may or may not exist)
        o = [[sorted((x[0], x[1], json.dumps(x[3])) for x in b["v"] if x[3] and (x[3] if not isinstance(x[3], dict) else any(x[3]["v"])))] if b["t"] == "vars" else [b["err"]] if b["t"] == "run" else b for b in r.obs if b["t"] != "pool"]
        ck.case(("pool", src))
        ck.count("pool_" + name)
        ck.count("poolend_%d" % r.get("run")["err"])
        want = first.setdefault(i, (o, src))
        if want[0] != o:
            bad = [b["t"] if isinstance(b, dict) else "state" for a, b in zip(want[0], o) if a != b]
            ck.violation("pool:%s:%s" % (name, bad), "the same statements laid out as\n%s\nand\n%s\ndiffer in %s" % (want[1].replace("\r", "\n"), src.replace("\r", "\n"), bad), case_text(c))
        if r.get("pool")["bad"]:
            ck.violation("pool", r.get("pool")["why"], case_text(c))


def rename(x, names):
    if isinstance(x, (tuple, list)):
        return type(x)(rename(y, names) for y in x)
    return names.get(x, x) if isinstance(x, str) else x


def run():
    ck = Check("C28")
    ck.rule = "a program counts as distinct by the statements it executed and its final variables; each is run in 8 variants"
    rng = ck.rng
    binp = build("asan")
    cases, n = [], ck.n(600, 8000)
    i = 0
    while i < n:
        g = Gen(rng, rich=rng.random() < .8)
        prog = g.program() if rng.random() < .8 else g.soup()
        many = rng.random() < .08
        if many:      # variables in front, so that the numbers of the others are large
            prog = [let("VV%d" % k, num(k)) for k in range(rng.choice([100, 120, 127, 128, 129, 200, 240, 250, 255, 256, 257, 300]))] + rename(prog, {v: v + rng.choice(["_", "_X", "_LOOP", "2"]) + rng.choice(["", "7", "_C"]) for v in LOOPV})
        m = Machine()
        try:
            err = m.run(prog, 5000)
        except (Limit, Skip):
            continue
        done = 0
        for name, lay, opts in layouts(rng)[:4 if many else None]:
            src = lay.source(prog)
            if src is None:
                continue
            # output goes to the console as well: the final screen must agree
            cases.append(Case("p%d_%s" % (i, name), (["sys 1024"] if many else []) + [prg(src, opts, 8000), "vars", "con", direct("R=0\r"), "pool"], (i, name, m, err, src, g.feat)))
            done += 1
        i += 1
        ck.count("variants", done)
    res = run_cases(binp, cases)
    con = {}
    for c in cases:
        i, name, m, err, src, feat = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        o = r.get("run")
        ck.case((tuple(sorted(feat)), m.steps, repr(sorted((k, v) for k, v in m.vars.items() if k != "@arr"))))
        ck.count("variant_" + name)
        ck.count("end_" + E.name(err).replace("ERR_", ""))
        if not same_err(o["err"], err):
            ck.violation("error:%s:%s:%s" % (name, E.name(err), E.name(o["err"])), "expected %s, got %s %r\n%s" % (E.name(err), E.name(o["err"]), bytes.fromhex(o["info"]) if o["info"] else "", src.replace("\r", "\n")), case_text(c))
            continue
        d = state_diff(m, r.get("vars"))
        if d:
            ck.violation("state:" + name, d[:300] + "\n" + src.replace("\r", "\n"), case_text(c))
            continue
        k = {a: b for a, b in r.get("con").items()}
        if con.setdefault(i, k) != k:
            ck.violation("console:" + name, "console differs between variants of one program\n" + src.replace("\r", "\n"), case_text(c))
        p = r.get("pool")
        if p["bad"]:
            ck.violation("pool", p["why"], case_text(c))
        ck.sample("%s: %d statements, err %s" % (name, m.steps, E.name(err)))
    pool_part(ck, binp)
    return ck.finish(min_evals=800)


if __name__ == "__main__":
    main(run, "C28")
