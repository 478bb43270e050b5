#!/usr/bin/env python3
"""C39: every statement, function, operator and variable takes exactly its documented argument forms, wherever it stands."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

# N number, n number variable, S string, s string variable, L label (a string names one as well). "+" repeats the last one.
STATEMENTS = {
    "LOCATE": "NN", "COLOR": "N NN", "NEXT": "- n", "RETURN": "-", "END": "-", "STOP": "-", "CLS": "-", "ACLS": "-", "VSYNC": "N", "WAIT": "N",
    "GOTO": "L", "GOSUB": "L", "RESTORE": "L", "RUN": "-", "CONT": "-", "NEW": "-", "CLEAR": "-", "ICONCLR": "- N", "SPCLR": "- N", "BGCLR": "- N", "GCLS": "- N",
    "FILES": "- S SS SSS SSSS SSSSS", "READ": "v+", "SWAP": "nn ss", "APPEND": "S", "EXEC": "S", "DELETE": "S", "RENAME": "SS", "SAVE": "S", "LOAD": "S SN", "KEY": "NS",
    "BEEP": "- N NN NNN NNNN", "PNLTYPE": "S", "PNLSTR": "NNS NNSN", "ICONSET": "NN", "BREPEAT": "N NNN",
    "BGPAGE": "N", "BGCLIP": "NNNN", "BGOFS": "NNN NNNN", "BGPUT": "NNNN NNNS NNNNNNN", "BGFILL": "NNNNNN NNNNNS NNNNNNNNN", "BGCOPY": "NNNNNNN",
    "BGREAD": "NNNn NNNs NNNnnnn", "CHRINIT": "S", "COLINIT": "- S SN", "CHRSET": "SNS", "COLSET": "SNS", "CHRREAD": "SNs", "COLREAD": "SNnnn",
    "DTREAD": "Snnn", "TMREAD": "Snnn",
    "GPAGE": "N NNN", "GCOLOR": "N", "GPRIO": "N", "GDRAWMD": "N", "GPSET": "NN NNN", "GLINE": "NNNN NNNNN", "GBOX": "NNNN NNNNN", "GFILL": "NNNN NNNNN",
    "GPAINT": "NN NNN NNNN", "GCIRCLE": "NNN NNNN NNNNNN", "GCOPY": "NNNNNNN NNNNNNNN", "GPUTCHR": "NNSNNN",
    "SPPAGE": "N", "SPSET": "NNNNNN NNNNNNNN", "SPOFS": "NNN NNNN", "SPCHR": "NN NNNNNN", "SPANIM": "NNN NNNN", "SPANGLE": "NN NNN NNNN", "SPSCALE": "NN NNN",
    "SPHOME": "NNN", "SPCOL": "NNNNNN NNNNNNN", "SPCOLVEC": "NNN", "SPSETV": "NNN", "SPREAD": "Nn Nnn Nnnn Nnnnn Nnnnnn",
    "POKE": "NN", "POKEH": "NN", "POKEB": "NN", "MEMCOPY": "NNN", "MEMFILL": "NNN",
}
FUNCTIONS = {   # result, forms
    "ABS": "N N", "ASC": "N S", "ATAN": "N N NN", "BGCHK": "N N", "BTRIG": "N -", "BUTTON": "N - N", "CHKCHR": "N NN", "CHR$": "S N", "COS": "N N", "DEG": "N N",
    "EXP": "N N", "FLOOR": "N N", "GSPOIT": "N NN NNN", "HEX$": "S N NN", "ICONCHK": "N -", "INKEY$": "S -", "INSTR": "N SS SSN", "LEFT$": "S SN", "LEN": "N S",
    "LOG": "N N", "MID$": "S SNN", "PI": "N -", "POW": "N NN", "RAD": "N N", "RIGHT$": "S SN", "RND": "N N", "SGN": "N N", "SIN": "N N", "SPCHK": "N N",
    "SPGETV": "N NN", "SPHIT": "N N NN", "SPHITSP": "N NN", "SQR": "N N", "STR$": "S N", "SUBST$": "S SNNS", "TAN": "N N", "VAL": "N S",
    "PEEK": "N N", "PEEKH": "N N", "PEEKB": "N N",
}
OPERATORS = {   # types that may stand on both sides -> result
    "+": {"NN": "N", "SS": "S"}, "-": {"NN": "N"}, "*": {"NN": "N", "SN": "S"}, "/": {"NN": "N"}, "%": {"NN": "N"}, "AND": {"NN": "N"}, "OR": {"NN": "N"}, "XOR": {"NN": "N"},
    **{o: {"NN": "N", "SS": "N"} for o in ("==", "!=", "<", ">", "<=", ">=")},
}
READONLY_N = "TRUE FALSE CANCEL VERSION MAINCNTL MAINCNTH FREEVAR FREEMEM RESULT TCHST TCHX TCHY TCHTIME CSRX CSRY SPHITNO SPHITX SPHITY SPHITT KEYBOARD FUNCNO ERL ERR".split()
READONLY_S = ["TIME$", "DATE$", "PRGNAME$", "PACKAGE$"]
WRITABLE_N = ["TABSTEP", "ICONPUSE", "ICONPAGE", "ICONPMAX", "MEMSAFE"]


def value(rng, kind, deep=1):
    """source of an argument of a kind; a number or string may be any expression that is no variable"""
    if kind == "v":
        kind = rng.choice("ns")
    if kind == "n":
        return rng.choice(["A", "B", "C7", "LONG_NAME_16CHAR", "D(1)", "D[A]", "E(1,2)", "E[B,A+1]", "q"] + WRITABLE_N[:2])
    if kind == "s":
        return rng.choice(["A$", "B$", "LONG_NAME_16CHAR$", "D$(1)", "D$[A]", "E$(0,1)", "x$", "MEM$"])
    if kind == "L":
        return rng.choice(["@E", "@E", "@LABEL_OF_16CHARS"])
    k = rng.random()
    if kind == "N":
        if k < .35 or deep > 2:
            return rng.choice(["1", "0", "2.5", ".5", "&HFF", "&B101", "-1", "TRUE", "CSRX", "99", "100", "524287"])
        if k < .6:
            op = rng.choice(list(OPERATORS))
            t = rng.choice([t for t, r in OPERATORS[op].items() if r == "N"])
            return "%s %s %s" % (value(rng, t[0], deep + 1), op, value(rng, t[1], deep + 1)) if t != "SS" else "(%s %s %s)" % (value(rng, "S", deep + 1), op, value(rng, "S", deep + 1))
        if k < .75:
            return rng.choice(["-%s", "!%s", "NOT %s", "(-%s)", "(%s+1)"]) % value(rng, rng.choice("nN"), deep + 1)
        return call(rng, rng.choice([f for f, x in FUNCTIONS.items() if x[0] == "N"]), deep)
    if k < .4 or deep > 2:
        return rng.choice(['"X"', '""', '"A,B:C"', '"(@E"', "DATE$", '"0123456789ABCDEF"'])
    if k < .6:
        return "%s+%s" % (value(rng, "S", deep + 1), value(rng, rng.choice("Ss"), deep + 1))
    if k < .7:
        return "(%s)*%s" % (value(rng, "S", deep + 1), rng.choice(["2", "A"]))
    return call(rng, rng.choice([f for f, x in FUNCTIONS.items() if x[0] == "S"]), deep)


def call(rng, f, deep=0, form=None):
    form = form if form is not None else rng.choice(FUNCTIONS[f].split()[1:]).replace("-", "")
    return "%s(%s)" % (f, ",".join(value(rng, rng.choice([k, k.lower()]) if k in "NS" else k, deep + 1) for k in form))


def fits(args, forms):
    for f in forms.split():
        f = f.replace("-", "")
        if f.endswith("+"):
            f = f[:-1] + f[-2] * max(0, len(args) - len(f) + 1)
        if len(f) == len(args) and all(a == k or (a == "n" and k in "Nv") or (a == "s" and k in "SvL") or (a == "S" and k == "L") for a, k in zip(args, f)):
            return True
    return False


def variants(rng, forms):
    """argument lists: all accepted ones and those one step away from them"""
    out = set()
    for f in forms.split():
        f = f.replace("-", "")
        if f.endswith("+"):
            f = f[:-2] + "".join(rng.choice("ns") for _ in range(rng.randint(1, 5)))
        f = "".join(rng.choice("ns") if k == "v" else k for k in f)
        out.add(f)
        out.add("".join(rng.choice([k, k.lower()]) if k in "NS" else k for k in f))
        for k in "NnSsL":
            out.add(f + k)
            for p in range(len(f)):
                out.add(f[:p] + k + f[p + 1:])
        for p in range(len(f)):
            out.add(f[:p] + f[p + 1:])
        out.add(f + f)
    return out - {f for f in out if forms == "L" and set(f[1:]) <= set("LSs") and f[1:]}     # lists of labels belong to ON


# the statement stands alone, behind or before others, and in either branch of an IF
PLACES = ["{}", "{}", "Z=1:{}", "{}:Z=1", "{}:LOCATE 1,2", "IF Z THEN {}", "IF Z THEN {}:Z=2", "IF Z THEN Z=3 ELSE {}", "IF Z THEN {} ELSE Z=4", "IF Z THEN PRINT 1,2;3,4 ELSE {}",
          "PRINT 1,2;A$:{}", "PRINT 1,:{}", "SORT 0,3,D,D$:{}", "IF Z THEN SORT 0,3,D ELSE {}", "DIM Q(3),R$(2,2):{}", "IF Z THEN DIM Q(3) ELSE {}", "FOR I=1 TO 3:{}", "FOR I=1 TO 3 STEP 1:{}:NEXT",
          "IF Z THEN FOR I=1 TO 2 ELSE {}", "IF Z THEN READ A,B$ ELSE {}", "INPUT \"Q\";A,B$:{}", "ON A GOSUB @E,@E:{}", "@X9:{}", "IF Z THEN {} ELSE IF A THEN Z=5 ELSE Z=6",
          "IF Z THEN IF A THEN {} ELSE Z=7", "{} 'LOCATE 1", "{}:REM LOCATE 1", "  {}  ", ":{}:", "IF Z THEN LOCATE 1,2 ELSE {}", "IF Z THEN BGREAD(0,1,2),A ELSE {}", "{}:?", "?:{}"]


def case(rng, name, args, ok, text=None, sep=None):
    a = text
    if a is None:
        a = "%s %s" % (name, ",".join(value(rng, k) for k in args)) if args else name
        if args and rng.random() < .2 and a[len(name) + 1] in '"-&@':
            a = name + a[len(name) + 1:]      # no space needed
    if rng.random() < .15 and '"' not in a:
        a = "".join(c.lower() if rng.random() < .5 and name == w else c for w in [name] for c in a) if False else a.replace(name, name.lower(), 1) if name else a
    place = rng.choice(PLACES)
    return place.format(a), a, ok


def gen(ck):
    rng = ck.rng
    out = []
    for st, forms in STATEMENTS.items():
        for args in sorted(variants(rng, forms)):
            ok = fits(args, forms)
            for _ in range(ck.n(12 if ok else 4, 60 if ok else 12) + (3 if ok and len(forms) < 12 else 0)):
                out.append((st, args) + case(rng, st, args, ok))
        for f in forms.split():       # an argument left out
            f = f.replace("-", "").replace("+", "").replace("v", "n")
            a = [value(rng, k) for k in f]
            for p in range(len(a) + 1) if st not in ("GOTO", "GOSUB") else ():
                out.append((st, "hole") + case(rng, st, "", False, "%s %s" % (st, ",".join(a[:p] + [""] + a[p:]) or ",")) if a else (st, "hole") + case(rng, st, "", False, st + " ,"))
    for f, spec in FUNCTIONS.items():
        res, forms = spec[0], spec[2:]
        for args in sorted(variants(rng, forms)):
            ok = fits(args, forms)
            for _ in range(ck.n(12 if ok else 4, 60 if ok else 12)):
                c = "%s(%s)" % (f, ",".join(value(rng, k) for k in args))
                good, bad = ("A", "A$") if res == "N" else ("A$", "A")
                k = rng.random()
                if k < .4:
                    t = "%s=%s" % (good, c)
                elif k < .6:
                    t = "LOCATE A,%s" % c if res == "N" else "KEY A,%s" % c
                elif k < .8:
                    t = "%s=%s==%s" % ("A", value(rng, res), c)
                else:
                    t = "PRINT %s;%s" % (value(rng, "N"), c)
                out.append((f, args) + case(rng, f, args, ok, t))
                if rng.random() < .2:
                    out.append((f, "result") + case(rng, f, args, False, "%s=%s" % (bad, c)))
                    out.append((f, "left") + case(rng, f, args, False, "%s=%s" % (c, value(rng, res))))
        for form in forms.split():
            a = [value(rng, k) for k in form.replace("-", "")]
            for p in range(len(a) + 1):
                c = "%s(%s)" % (f, ",".join(a[:p] + [""] + a[p:]) or ",")
                out.append((f, "hole") + case(rng, f, "", False, rng.choice(["PRINT 1,%s" % c, "PRINT 1 %s" % c, "LOCATE 1,2,%s" % c, "LOCATE 1,%s" % c, "KEY 1,A$,%s" % c, "B=1+%s" % c])))
    for op, types in OPERATORS.items():
        for l in "NnSs":
            for r in "NnSs":
                t = types.get((l + r).upper())
                for _ in range(ck.n(20, 90)):
                    x = value(rng, l, 3) if l in "NS" else value(rng, l)
                    y = value(rng, r, 3) if r in "NS" else value(rng, r)
                    dest = rng.choice(["A", "A$"])
                    want = "A$" if t == "S" else "A"
                    e = "%s %s %s" % (x, op, y)
                    if t and rng.random() < .6:
                        dest = want
                    out.append((op, l + r + dest) + case(rng, "", "", bool(t) and dest == want, rng.choice(["%s=%s", "%s=(%s)"]) % (dest, e)))
    for op in ("-", "NOT ", "!"):
        for k in "NnSs":
            for _ in range(ck.n(20, 60)):
                out.append((op, k) + case(rng, "", "", k in "Nn", "A=%s%s" % (op, value(rng, k, 2) if k in "Nn" else value(rng, k, 3))))
    # assignments and subscripts
    for v in READONLY_N + READONLY_S:
        for t in ("%s=1", '%s="X"', "READ %s", "SWAP %s,A", "SWAP A$,%s", "INPUT %s", "LINPUT %s", "SPREAD(1),%s", "DTREAD(\"2020/01/01\"),A,B,%s"):
            out.append((v, "readonly") + case(rng, "", "", False, t % v))
        d = "A$" if v[-1] == "$" else "A"
        for t in ("=%s", "=%s+" + value(rng, "S" if d == "A$" else "N", 2), "=(%s)"):
            out.append((v, "use") + case(rng, "", "", True, d + t.replace("%s", v)))
        if d == "A":
            for t in ("A=%s-1", "A=1-%s", "LOCATE %s-1,-%s", "A=%s*2-1"):
                out.append((v, "use") + case(rng, "", "", True, t.replace("%s", v)))
    for v in WRITABLE_N + ["MEM$"]:
        s = v[-1] == "$"
        for t in ("%s=" + ('"X"' if s else "1"), "READ %s", "SWAP %s," + ("A$" if s else "A"), "LINPUT %s" if s else "INPUT %s", "INPUT \"Q\";%s"):
            out.append((v, "assign") + case(rng, "", "", True, t % v))
        for t in ("%s=" + ("1" if s else '"X"'), "SWAP %s," + ("A" if s else "A$")):
            out.append((v, "wrongtype") + case(rng, "", "", False, t % v))
    n = ck.n(30, 150)
    for _ in range(n):
        V = lambda k: value(rng, k)
        W = lambda k: value(rng, rng.choice([k, k.lower()]))
        N, S = W("N"), W("S")
        T = [("n=N", "%s=%s" % (V("n"), N), 1), ("s=S", "%s=%s" % (V("s"), S), 1), ("n=S", "%s=%s" % (V("n"), S), 0), ("s=N", "%s=%s" % (V("s"), N), 0),
             ("N=N", "(%s)=%s" % ("A+1", N), 0), ("1=N", "1=%s" % N, 0), ("S=S", '"X"=%s' % S, 0),
             ("sub1", "D(%s)=1" % N, 1), ("sub2", "E(%s,%s)=1" % (N, W("N")), 1), ("sub3", "E(1,2,3)=1", 0), ("sub0", "A=D()", 0), ("subS", "A=D(%s)" % S, 0), ("subNS", "A=E(%s,%s)" % (N, S), 0),
             ("subSN", "A=E(%s,%s)" % (S, N), 0), ("sub$", "A$=E$(%s,%s)" % (N, W("N")), 1), ("sub$S", "A$=D$(%s)" % S, 0), ("subhole", "A=1+E(1,)", 0), ("subhole2", "PRINT 1 E(,1)", 0),
             ("dim1", "DIM U(%s)" % N, 1), ("dim2", "DIM U(%s,%s),U$(2)" % (N, W("N")), 1), ("dimS", "DIM U(%s)" % S, 0), ("dim3", "DIM U(1,2,3)", 0), ("dim0", "DIM U()", 0), ("dim[]", "DIM U[%s],V[1,2],W$[3]" % N, 1),
             ("if", "IF %s THEN A=1" % N, 1), ("ifS", "IF %s THEN A=1" % S, 0), ("ifgoto", "IF %s GOTO @E" % N, 1), ("ifgotoelse", "IF %s GOTO @E ELSE @E" % N, None), ("ifgosub", "IF %s THEN GOSUB @E ELSE GOTO @E" % N, 1),
             ("on", "ON %s GOTO @E" % N, 1), ("on3", "ON %s GOSUB @E,%s,@E" % (N, V("L")), 1), ("onS", "ON %s GOTO @E" % S, 0), ("on0", "ON %s GOTO" % N, 0), ("onN", "ON %s GOTO @E,1" % N, 0), ("on-", "ON %s" % N, 0),
             ("onP", "ON %s PRINT 1" % N, 0), ("onS2", "ON %s GOTO A$,%s,@E" % (N, S), 1), ("onG0", "ON GOTO @E", 0),
             ("for", "FOR I=%s TO %s" % (N, W("N")), 1), ("forstep", "FOR I=%s TO %s STEP %s" % (N, W("N"), W("N")), 1), ("forS", "FOR I=1 TO %s" % S, None), ("for=S", "FOR I=%s TO 2" % S, 0),
             ("forstepS", "FOR I=1 TO 2 STEP %s" % S, None), ("to", "TO %s" % N, 0), ("step", "STEP %s" % N, 0), ("forxx", "FOR I=1 STEP 2 TO 3", 0),
             ("sort", "SORT %s,%s,D" % (N, W("N")), 1), ("sort3", "RSORT %s,%s,D,D$,D" % (N, W("N")), 1), ("sort0", "SORT %s,%s" % (N, W("N")), 0), ("sortN", "SORT 0,1,%s" % rng.choice(["1", "D+1", '"X"', "(1)"]), 0),
             ("sortS", "SORT %s,1,D" % S, 0), ("sortNS", "RSORT 1,%s,D" % S, 0), ("sort1", "SORT D", 0), ("sortD", "SORT 1,D", 0),
             ("input", "INPUT %s" % V("v"), 1), ("input3", "INPUT %s,%s,%s" % (V("n"), V("s"), V("v")), 1), ("inputp", "INPUT %s;%s,%s" % (S, V("v"), V("v")), 1), ("input0", "INPUT", 0), ("inputN", "INPUT %s" % "A+1", 0),
             ("inputpN", "INPUT %s;%s" % (W("N"), V("v")), 0), ("inputpp", "INPUT %s;" % S, 0), ("input,", 'INPUT "Q",A', 0), ("inputc", 'INPUT "Q";A+1', 0),
             ("linput", "LINPUT %s" % V("s"), 1), ("linputp", "LINPUT %s;%s" % (S, V("s")), 1), ("linputn", "LINPUT %s" % V("n"), 0), ("linputpn", "LINPUT %s;%s" % (S, V("n")), 0), ("linput2", "LINPUT %s,%s" % (V("s"), V("s")), 0),
             ("linput0", "LINPUT", 0), ("print", "PRINT %s;%s,%s %s" % (N, S, "A$", '"X"'), 1), ("print0", "PRINT", 1), ("print;", "?%s;" % W("N"), 1), ("print,", "PRINT %s," % S, 1), ("print,,", "PRINT ,,%s" % N, 1),
             ("value", "A", 0), ("value2", "1", 0), ("value3", '"X"', 0), ("value4", "A+1", 0), ("value5", "A,B=1", 0), ("op1", "A=1+", 0), ("op2", "A=*2", 0), ("op3", "A=", 0), ("op4", "=1", 0), ("close", "A=1)", 0),
             ("close2", "LOCATE 1,2]", 0), ("two", "A=1 2", 0), ("two2", "LOCATE 1 2 3", 0), ("lab", "A=@E", 0), ("lab2", "PRINT LEN(@E)", 0), ("then", "THEN", None), ("bgread", "BGREAD(%s,1,%s),%s" % (N, W("N"), V("n")), 1),
             ("spread", "SPREAD(%s),%s,%s" % (N, V("n"), V("n")), 1), ("spreadS", "SPREAD(%s),A$" % N, 0), ("num", "A=1.5.5", None), ("num2", "A=&H", 0), ("num3", "A=&B12", 0), ("char", "A=1#", 0), ("char2", "A={", 0),
             ("name17", "ABCDEFGHIJKLMNOPQ=1", 0), ("name16", "ABCDEFGHIJKLMNOP=1", 1), ("name17$", 'ABCDEFGHIJKLMNOPQ$="X"', 0), ("name16$", 'ABCDEFGHIJKLMNOP$="X"', 1), ("lab17", "GOTO @ABCDEFGHIJKLMNOPQ", 0),
             ("big", "A=524288", 0), ("big2", "A=524287.999", 1), ("big3", "A=1048576", 0)]
        for k, t, ok in T:
            if ok is None:
                continue
            c = case(rng, "", "", bool(ok), t)
            # a value alone is ignored in an IF, and printed by a ? behind it
            while ("IF" in c[0] or not c[0].endswith(t)) and k.startswith(("value", "lab")) and k != "lab17":
                c = case(rng, "", "", bool(ok), t)
            while (k in ("forxx", "for", "forstep") and "{}:" not in c[0] and "FOR" in c[0].replace(t, "")):
                c = case(rng, "", "", bool(ok), t)
            out.append(("form", k) + c)
    return out


def visible_part(ck, binp):
    """VISIBLE keeps what is left out, wherever it stands"""
    rng = ck.rng
    places = [p for p in PLACES if "INPUT" not in p and "GOSUB" not in p and "READ" not in p and "SORT" not in p and p not in ("IF Z THEN Z=3 ELSE {}",) and "NEXT" not in p]
    cases = []
    for i in range(ck.n(1500, 8000)):
        a = [rng.randrange(2) for _ in range(6)]
        b = [rng.choice([0, 1, None]) for _ in range(6)]
        place = rng.choice(places)
        z = 0 if place.split("{}")[0].count("ELSE") else 1
        acts = ["sys", prg("VISIBLE %s\rZ=%d:A=1\r%s\rZZ=5\r" % (",".join(map(str, a)), z, place.format("VISIBLE " + ",".join("" if x is None else rng.choice([str(x), "%d+0" % x, "A*%d" % x]) for x in b)))), "flags", "var ZZ"]
        cases.append(Case("v%d" % i, acts, (place, a, b)))
    res = run_cases(binp, cases)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        place, a, b = c.meta
        want = sum((x if y is None else y) << i for i, (x, y) in enumerate(zip(a, b)))
        ck.case(("VISIBLE", place, tuple(a), tuple(b)))
        ck.count("VISIBLE with parts left out")
        if r.get("run")["err"] or r.get("flags")["visible"] != want:
            ck.violation("visible", "%s with VISIBLE %s, before %s: %s, visible %s, expected %s" % (place, b, a, E.name(r.get("run")["err"]), bin(r.get("flags")["visible"]), bin(want)), case_text(c))


HEAD, TAIL = "GOTO @E\r", "\r@E\rZZ=7\rEND\r@LABEL_OF_16CHARS\r"


def main():
    ck = Check("C39")
    ck.rule = "every argument list one step from an accepted one, for every statement, function and operator, in many places of a line; distinct = statement, argument types, place"
    binp = build("asan")
    rng = ck.rng
    todo = [t for t in gen(ck) if len(re.findall(r'"[^"]*"|[@&]?[A-Za-z_$0-9.]+|[<>=!]=|[^ ]', t[2])) < 80]      # 100 fit in a line
    per = 40
    cases = []
    for b in range(0, len(todo), per):
        part = todo[b:b + per]
        acts = ["sys"]
        for name, args, line, text, ok in part:
            # translated but not run: a refused line is reported by the strict translation
            acts.append(prg(HEAD + line + TAIL, 4 | rng.choice([0, 0, 0, 2, 1])))
        reach = [t for t in part if not t[4] and not any(w in t[2].replace(t[3], "") for w in ("INPUT", "ON ", "FOR "))][:6]
        for name, args, line, text, ok in reach:
            if not ok:        # reached, its error appears there
                acts += [prg("ZA=1\r%s\rZA=2\r%s" % (line, TAIL)), "var ZA"]
        cases.append(Case("f%d" % b, acts, (part, reach)))
    res = run_cases(binp, cases)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        runs = [o for o in r.obs if o["t"] == "run"]
        va = r.all("var")
        part, bad = c.meta
        if len(runs) != len(part) + len(bad):
            ck.violation("incomplete", "%d of %d lines reported" % (len(runs), len(part)), case_text(c))
            continue
        for t, o in zip(part, runs):
            name, args, line, text, ok = t
            ck.count(("accepted" if ok else "refused") + " forms")
            ck.sample("%s: %s" % ("accepted" if ok else E.name(o["err"]), line))
            ck.case((name, args, line.replace(text, "{}")))
            if (o["err"] == 0) != ok:
                ck.violation("form:%s:%s" % (name, "refused" if ok else "accepted"), "%s\nis %s (form %s of %s)" % (line, "refused: " + E.name(o["err"]) if ok else "accepted, though it is no documented form", args or "()", name), case_text(c))
        for t, o, v in zip(bad, runs[len(part):], va):
            ck.count("refused lines reached")
            if not o["err"] or v["v"] != 1 << 12:
                ck.violation("reached", "%s\nwhen reached: %s, ZA=%s" % (t[2], E.name(o["err"]), v["v"] / 4096), case_text(c))
    visible_part(ck, binp)
    return ck.finish(min_evals=3000)


if __name__ == "__main__":
    sys.exit(main())
