#!/usr/bin/env python3
"""C07: string slots are conserved, values never alias, bounded programs never run out of string memory."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gen import *


class Peak(Machine):
    """reference interpreter that also keeps count of the string locations in use (assigned, even if empty)"""

    def __init__(self):
        Machine.__init__(self)
        self.used, self.peak = set(), 0

    def put(self, loc, v):
        Machine.put(self, loc, v)
        if isinstance(v, bytes):
            self.used.add(loc[1] if loc[0] == "var" else (id(loc[1]), loc[2]))
            self.peak = max(self.peak, len(self.used))

    def step(self, op):
        Machine.step(self, op)
        if op[0] == "clear":
            self.used = set()
        if op[0] == "sort":
            s, n = self.ev(op[2]) >> 12, self.ev(op[3]) >> 12
            for a in op[4]:
                if a.endswith("$"):
                    self.used |= {(id(self.arrs[a][1]), i) for i in range(s, s + n)}
            self.peak = max(self.peak, len(self.used))


def string_nodes(p):
    """string operations of the most demanding item of a program (bounds its temporaries)"""
    if isinstance(p, tuple):
        own = 1 if p and p[0] in ("bin", "fn", "str") else 0
        return own + sum(string_nodes(x) for x in p)
    if isinstance(p, list):
        return sum(string_nodes(x) for x in p)
    return 0


# statements that create, pass on and drop strings in every part of the system; V is the loop variable
CHURN = [
    'U$=TIME$', 'U$=DATE$+"x"', 'U$=PRGNAME$', 'U$=PACKAGE$', 'U$=MEM$', 'U$=INKEY$', 'U$=INKEY$+"q"', 'V$=U$', 'U$=V$', 'U$=U$', 'U$=""', 'V$=CHR$(V%256)',
    'CHRREAD("BGU0",V%200),U$', 'CHRREAD("BGU"+"0",3),R$[1]', 'BGREAD(0,V%64,1),U$', 'BGREAD(V%2,1,1),R$[0]', 'MEM$=U$+"m"', 'MEM$=V$', 'MEM$="lit"', 'MEM$=MEM$', 'SWAP MEM$,U$', 'SWAP U$,MEM$',
    'SWAP U$,V$', 'SWAP R$[1],U$', 'SWAP R$[0],R$[V%3]', 'SWAP U$,U$', 'DTREAD("2001/02/"+"03"),Q,W,E', 'TMREAD("01:"+"02:03"),Q,W,E', 'CHRSET "BGU0",V%200,("12"*32)',
    'CHRSET "BGU"+"1",1,"0F"*32', 'BGPUT 0,V%64,2,HEX$(V,4)', 'BGPUT 0,1,2,"00"+"12"', 'PNLSTR 1,1,U$+"p",3', 'PNLSTR 0,V%24,STR$(V)', 'KEY 1,"ab"+STR$(V)', 'KEY 2,U$', 
    'COLSET "BG",V%256,"FF"+"00FF"', 'COLSET "B"+"G",V%256,HEX$(V,2)+"A0B0"', 'COLREAD("B"+"G",1),Q,W,E', 'GPUTCHR 3,4,"BG"+"F0",V%256,0,1', 'BGMPLAY "C"+"D"', 'PNLTYPE "O"+"FF"', 'PRINT U$+V$', 'PRINT "a"+"b",STR$(V);U$',
    'PRINT U$;:PRINT V$+"",', 'Q=LEN(U$+V$)', 'Q=INSTR("a"+"bc","b"+"c")', 'Q=INSTR(U$+"x","x",0)', 'Q=VAL("1"+"2")', 'Q=ASC("a"+U$)', 'Q=U$+"a"==V$', 'Q="a"+"b"<U$+""',
    'IF U$+"a"==V$+"b" THEN Q=1 ELSE Q=2', 'IF LEN("x"+"y")>1 THEN U$="t"+"u" ELSE U$="e"', 'ON LEN("a"+STR$(V%3)) GOTO @C', 'GOTO "@"+"C"', 'GOSUB "@"+"S"', 'GOSUB @S', 'RESTORE "@"+"D":READ U$', 'RESTORE @D:READ R$[0],R$[1],V$', 'RESTORE @D:READ U$,Q$,U$',
    'SORT 0,3,R$', 'RSORT 0,5,R$', 'R$[V%5]=STR$(V)+"k"', 'R$[V%5]=R$[(V+1)%5]', 'U$=R$[V%5]', 'R$[2]="lit"', 'R$[3]=""', 'U$=LEFT$("ab"+U$,1)', 'U$=RIGHT$(U$+"yz",3)', 'U$=MID$(U$+"12345",1,4)', 'U$=SUBST$(LEFT$(U$,5)+"abc",0,2,"q"+"r")', 'U$=LEFT$(U$,0)', 'U$=MID$(U$,0,300)', 'U$=RIGHT$(U$,20)', 'U$=LEFT$(R$[V%5],4)',
    'U$=("a"+"b")*2', 'U$=U$*0', 'U$=""*3', 'U$="ab"*0', 'U$=U$+""', 'U$=""+V$', 'U$=""+""', 'U$=STR$(V)+HEX$(V)', 'U$=CHR$(65)+CHR$(66)', 'FOR X=LEN("a"+"b") TO LEN("ab"+"cd") STEP LEN("a"+""):Q=X:NEXT', 'FOR X=9 TO ASC("a"+"")-95 STEP LEN("b"+""):Q=X:NEXT',
    'D$[1,2]=STR$(V)', 'D$[V%3,V%4]=U$', 'D$[1,2]=D$[2,1]+"w"', 'U$=D$[V%3,V%4]', 'SWAP D$[0,0],R$[0]', 'R$[LEN("a"+"b")]="c"+"d"', 'D$[ASC("b"+"")-97,LEN("x"*2)]="r"+"s"', 'Q[LEN("ab"+"c")]=1', 'A$=A$', 'U$=A$', 'R$[4]=A$', 'U$=A$+B$', 'Q=A$==U$',
    'LOCATE LEN("a"+"b"),3', 'COLOR LEN("a"+"b")', 'Q=CHKCHR(LEN("a"+"b"),2)', 'SPSET LEN("a"+"b"),ASC("a"+"")%50,1,0,0,0', 'LINPUT U$', 'LINPUT "p"+"q";U$', 'INPUT U$,Q', 'INPUT "z"+"w";R$[1],U$', 'ICONSET 0,LEN("a"+"b")', 'Q=LEN(PRGNAME$+TIME$)', 'U$=SUBST$(TIME$,2,1,"h"+"")', 'BGREAD(0,LEN("a"+"b"),ASC("b"+"")-97),Q,W,E,T', 'U$=HEX$(LEN(U$),3)', 'A2$[0]=A2$[0]+"":A2$[0]=""',
]
# a statement that needs keys
NEEDKEY = ("INPUT", "LINPUT")


def churn_prog(rng, n, loops):
    body, keys = [], []
    for _ in range(n):
        s = rng.choice(CHURN)
        if "INPUT" in s and (rng.random() < .5 or any("INPUT" in x or "INKEY" in x for x in body)) or "INKEY" in s and any("INPUT" in x for x in body):
            s = rng.choice(CHURN[:5])
        body.append(s)
    hasinput = any("INPUT" in s for s in body)
    if hasinput:
        loops = min(loops, 6)
    lines = ["A$=\"an\"+\"chor\":B$=A$+STR$(7):DIM Q[8],R$[8],D$[3,4],A2$[2]", "FOR V=0 TO %d" % (loops - 1)]
    for s in body:
        lines.append(s)
        if "@C" in s or '"C"' in s and "GOTO" in s:
            pass
    # GOTO @C needs the label after it; only one of them is used per program
    out, used = [], False
    for s in lines:
        if ("@C" in s or '"@"+"C"' in s):
            if used:
                continue
            used = True
            out += [s, "U$=\"skipped\"+\"!\"", "@C"]
        else:
            out.append(s)
    out += ["NEXT", "END", "@S", 'U$="in"+"sub"', "RETURN", "@D", 'DATA abc,"d e",,xyz', ""]
    return "\r".join(out), hasinput, loops


def probe(rng):
    """a program that needs a handful of strings at most"""
    return 'U$="":FOR V=0 TO 40:U$="p"+STR$(V)+"r":V$=U$+"s":NEXT:P$=V$\r'


FAILS = ['U$="a"+"b"+ASC("")\r', 'U$=("x"+"y")*200\r', 'PRINT "a"+"b";1/0\r', 'GOTO "@"+"ZZ"\r', 'U$=LEFT$("a"+"b",-1)\r', 'R$[LEN("a"*50)]="a"+"b"\r', 'Q=INSTR("a"+"b","b"+"c",-1)\r', 'CHRSET "BG"+"U0",1,"1"+"2"\r',
         'V$="q"+"r":U$=MID$(V$+"s",-1,2)\r', 'U$=SUBST$("a"+"b",5,1,"c"+"d")\r', 'READ U$:V$="z"+"z"\r', 'U$=("a"+"b")*130+("c"+"d")*10\r', 'COLSET "B"+"G",1,"zz"+"z"\r', 'DTREAD("a"+"b"),Q,W,E\r', 'U$=CHR$(300)+"a"\r', 'IF "a"+"b"=="a"+("b"*300) THEN U$=""\r',
         'FOR V=0 TO LEN("a"+"b"):U$=STR$(V)+"w":GOTO "@"+STR$(V)\r', 'GOSUB "a"+"b"\r', 'KEY 9,"a"+"b"\r', 'PNLTYPE "a"+"b"\r', 'U$="a"+"b"+HEX$(-600000/1,1)\r', 'V$=STR$(1)+STR$(2)+STR$(524287+1)\r', 'SWAP R$[99],U$\r']


def run():
    ck = Check("C07")
    ck.rule = "a case counts as distinct by its statements kinds, pool size and final pool occupation"
    rng = ck.rng
    binp = build("asan")
    cases = []
    # A: programs with known values in the smallest pool that has to be enough
    for i in range(ck.n(1200, 12000)):
        while True:
            g = Gen(rng, True)
            prog = g.program()
            m = Peak()
            try:
                err = m.run(prog, 6000)
            except (Limit, Skip):
                continue
            src = plain(rng).source(prog)
            if src is None or src.count("\r") > 400:
                continue
            break
        temps = max(string_nodes(x) for x in prog)
        k = m.peak + temps + 3
        cases.append(Case("a%d" % i, ["sys 256 %d" % k, prg(src, rng.choice([0, 2]), 4000), "vars", "pool"] + (["direct %s 0 2000" % hx("\r"), "pool"] if err else []), ("a", m, err, src, k)))
    # B: long programs with a bounded number of strings
    for i in range(ck.n(900, 9000)):
        n = rng.randint(1, 9)
        src, hasin, loops = churn_prog(rng, n, rng.choice([30, 60, 150]))
        k = 8 + 12 + 12 + 16       # R$, D$, scalars and MEM$, temporaries
        acts = ["testmode 1", "sys 256 %d" % k]
        acts = acts[1:]
        if hasin:
            acts.append("testmode 1")
            acts.append("key " + " ".join(("ff4b", "ff0c", "ff15", "000d")[i % 4] for i in range(4 * loops * src.count("INPUT"))))
        elif rng.random() < .7:
            acts.append("key " + " ".join("%04x" % ord(c) for c in "kQz"))
        acts += [prg(src, rng.choice([0, 2]), 6000), "vars", "pool"]
        cases.append(Case("b%d" % i, acts, ("b", src, hasin, loops)))
    # C: single statements in tiny pools: each is either done or rejected as a whole
    for i in range(ck.n(600, 6000)):
        k = rng.randint(3, 12)
        m = Peak()
        m.dims("R$", [10])
        acts, steps = ["sys 64 %d" % k], []
        for j in range(rng.randint(5, 40)):
            def loc():
                return ("var", rng.choice(["A$", "B$", "C$", "D$"])) if rng.random() < .5 else ("arr", "R$", [num(rng.randint(0, 9))])
            q = rng.random()
            if q < .6:
                e = gen_expr(rng, rng.randint(0, 2), "S", nvars=["N"], svars=["A$", "B$", "C$", "D$"], sarr=[("R$", (10,))])
                s = ("let", loc(), e)
            elif q < .7:
                s = ("let", loc(), ("str", b""))
            elif q < .85:
                s = ("swap", loc(), loc())
            elif q < .92:
                s = ("sort", rng.random() < .5, num(0), num(rng.randint(0, 10)), ["R$"])
            else:
                s = ("print", [gen_expr(rng, 2, "S", nvars=["N"], svars=["A$", "B$", "C$", "D$"])], [";"])
            src = plain(rng).source([s])
            if src is None:
                continue
            acts += [direct(src), "vars"]
            steps.append((s, src))
        acts += [direct("N=0\r"), "pool"]
        cases.append(Case("c%d" % i, acts, ("c", m, steps, k)))
    # D: failed runs do not use up the pool
    for i in range(ck.n(150, 3000)):
        k = rng.randint(12, 24)
        acts, fl = ["sys 64 %d" % k, direct('KEEP$="ke"+"ep":DIM R$[5]\r')], []
        for j in range(rng.randint(5, 40)):
            f = rng.choice(FAILS)
            fl.append(f)
            acts.append(direct(f, 0, 3000) if rng.random() < .5 else prg(f, 0, 3000))
        acts += [prg(probe(rng), 0, 4000), "vars", "pool"]
        cases.append(Case("d%d" % i, acts, ("d", fl, k)))
    # E: as many strings as the pool has slots can be alive
    for i in range(ck.n(40, 400)):
        k = rng.choice([1, 2, 3, 7, 16, rng.randint(4, 200), rng.randint(4, 200)])
        e = rng.choice(["STR$(I)", "HEX$(I,3)", "CHR$(65+I%26)*(I/26+2)"])
        src = "DIM R$[%d]\rFOR I=0 TO %d:R$[I]=%s:NEXT\r" % (k + 5, k + 4, e)
        cases.append(Case("e%d" % i, ["sys 64 %d" % k, prg(src, rng.choice([0, 2]), 4000), "var I"], ("e", k, src)))
    # F: copies between variables, array items and MEM$, with empty strings among them
    for i in range(ck.n(300, 6000)):
        locs = ["A$", "B$", "MEM$", "MEM$", "R$[0]", "R$[1]"]
        st = {l: b"" for l in locs}
        acts, steps = ["sys 64 %d" % rng.randint(12, 20), direct('DIM R$[2]\r')], []
        for j in range(rng.randint(6, 24)):
            d, s, t = rng.choice(locs), rng.choice(locs), rng.choice(locs)
            word = bytes(rng.choice(b"abcxyz") for _ in range(rng.randint(1, 3)))
            q = rng.random()
            if q < .22:
                w = word if rng.random() < .6 else b""
                src, new = '%s="%s"' % (d, w.decode()), {d: w}
            elif q < .55:
                src, new = "%s=%s" % (d, s), {d: st[s]}
            elif q < .65 and len(st[s]) + len(st[t]) < 40:
                src, new = "%s=%s+%s" % (d, s, t), {d: st[s] + st[t]}
            elif q < .72:
                src, new = '%s=%s+""' % (d, s), {d: st[s]}
            elif q < .8:
                src, new = "%s=LEFT$(%s,%d)" % (d, s, j % 3), {d: st[s][:j % 3]}
            elif q < .92:
                src, new = "SWAP %s,%s" % (d, s), {d: st[s], s: st[d]}
            else:
                src, new = "%s=%s:%s=%s" % (d, s, t, d), None
                st[d] = st[s]
                st[t] = st[d]
            if new:
                st.update(new)
            acts += [direct(src + "\r"), direct('M$=MEM$+""\r'), "vars"]
            steps.append((src, dict(st)))
        acts += [direct("N=0\r"), "pool"]
        cases.append(Case("f%d" % i, acts, ("f", steps)))
    res = run_cases(binp, cases)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        kind = c.meta[0]
        if kind == "f":
            steps = c.meta[1]
            ck.case(("f", steps[-1][0], len(steps)))
            bad = [o["err"] for o in r.all("run") if o["err"]]
            if bad:
                ck.violation("error", "%s in %s" % (E.name(bad[0]), [s for s, _ in steps]), case_text(c))
                continue
            for (src, st), vs in zip(steps, r.all("vars")):
                ck.count("copies_compared")
                got = {n + "$": x for n, t, s, x in vs["v"] if is_str_type(t)}
                got["MEM$"] = got.get("M$")
                arr = got.get("R$") or {}
                for l, x in st.items():
                    g = got.get(l) if "[" not in l else arr["v"][int(l[3])]
                    if uns(g if g is not None else "") != W(x):
                        ck.violation("value", "after %s, %s is %r, expected %r" % (" : ".join(a for a, _ in steps[:steps.index((src, st)) + 1]), l, g, x), case_text(c))
                        break
                else:
                    continue
                break
            if r.get("pool")["bad"]:
                ck.violation("conservation", r.get("pool")["why"] + str([s for s, _ in steps]), case_text(c))
            continue
        if kind == "e":
            o, v = r.get("run"), r.get("var")["v"]
            ck.case(("e",) + c.meta[1:])
            ck.count("pools_filled")
            if o["err"] != E.OUT_OF_MEMORY or v >> 12 != c.meta[1]:
                ck.violation("capacity", "a pool of %d strings ended with %s at string number %d\n%s" % (c.meta[1], E.name(o["err"]), v >> 12, c.meta[2].replace("\r", "\n")), case_text(c))
            continue
        pools = r.all("pool")
        for p in pools:
            ck.count("pool_scans")
            ck.count("slots_checked", p["max"])
        if kind == "a":
            _, m, err, src, k = c.meta
            o = r.get("run")
            ck.case((k, err, o["calls"], pools[0]["used"]))
            ck.count("tight_pools")
            if not same_err(o["err"], err):
                key = "exhausted" if o["err"] == E.OUT_OF_MEMORY else "error"
                ck.violation(key, "pool of %d strings, at most %d alive: expected %s, got %s\n%s" % (k, m.peak, E.name(err), E.name(o["err"]), src.replace("\r", "\n")), case_text(c))
                continue
            d = state_diff(m, r.get("vars"))
            if d:
                ck.violation("value", d[:300] + "\n" + src.replace("\r", "\n"), case_text(c))
                continue
            if pools[-1]["bad"]:
                ck.violation("conservation", pools[-1]["why"] + "\n" + src.replace("\r", "\n"), case_text(c))
        elif kind == "b":
            _, src, hasin, loops = c.meta
            o = r.get("run")
            if hasin and o["err"] == 9999:
                o = dict(o, err=0)
                soft = True
            else:
                soft = False
            ck.case((tuple(sorted(set(src.split("\r")))), pools[0]["used"]))
            ck.count("churn_iterations", loops)
            if o["err"] == E.OUT_OF_MEMORY:
                ck.violation("leak", "bounded program ran out of memory\n" + src.replace("\r", "\n"), case_text(c))
                continue
            if o["err"] == E.STRING_TOO_LONG:
                ck.count("grew_too_long")
                continue
            if o["err"]:
                ck.violation("error", "%s\n%s" % (E.name(o["err"]), src.replace("\r", "\n")), case_text(c))
                continue
            if not soft and pools[0]["bad"]:
                ck.violation("conservation", pools[0]["why"] + "\n" + src.replace("\r", "\n"), case_text(c))
                continue
            v = {n + ("$" if is_str_type(t) else ""): x for n, t, s, x in r.get("vars")["v"] if not isinstance(x, dict)}
            if uns(v.get("A$")) != W(b"anchor") or uns(v.get("B$")) != W(b"anchor7"):
                ck.violation("value", "A$=%s B$=%s\n%s" % (v.get("A$"), v.get("B$"), src.replace("\r", "\n")), case_text(c))
        elif kind == "c":
            _, m, steps, k = c.meta
            oom = 0
            for (s, src), o, vs in zip(steps, r.all("run"), r.all("vars")):
                if o["err"] == E.OUT_OF_MEMORY:
                    oom += 1
                    n = len(m.used)
                    if n + string_nodes(s) + 2 < k:
                        ck.violation("exhausted", "%d strings alive of %d: %s" % (n, k, src), case_text(c))
                        break
                else:
                    m2err = m.run([s])
                    if not same_err(m2err, o["err"]):
                        ck.violation("error", "%s: expected %s got %s" % (src, E.name(m2err), E.name(o["err"])), case_text(c))
                        break
                d = state_diff(m, vs)
                if d:
                    ck.violation("value", "after %s -> %s: %s" % (src, E.name(o["err"]), d[:300]), case_text(c))
                    break
            else:
                if pools[-1]["bad"]:
                    ck.violation("conservation", pools[-1]["why"], case_text(c))
            ck.count("rejected_for_memory", oom)
            ck.case((k, oom, pools[-1]["used"], len(steps)))
        else:
            _, fl, k = c.meta
            o = r.all("run")[-1]
            ck.case((k, len(fl), tuple(sorted(set(fl)))))
            if o["err"]:
                ck.violation("leak", "after %d failed runs a small program ends with %s" % (len(fl), E.name(o["err"])), case_text(c))
                continue
            if pools[0]["bad"]:
                ck.violation("conservation", pools[0]["why"], case_text(c))
            v = {n: x for n, t, s, x in r.get("vars")["v"] if not isinstance(x, dict) and is_str_type(t)}
            if uns(v.get("KEEP")) != W(b"keep") or uns(v.get("P")) != W(b"p40rs"):
                ck.violation("value", "KEEP$=%s P$=%s" % (v.get("KEEP"), v.get("P")), case_text(c))
    return ck.finish(min_evals=800)


if __name__ == "__main__":
    main(run, "C07")
