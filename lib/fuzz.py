"""Random statements and programs from everything the language has: valid, borderline and absurd arguments."""

NV = ["A", "B", "C", "I", "J", "X", "Y", "Z", "LONGVARIABLE_NAM"]
SV = ["A$", "B$", "C$", "X$", "LONGSTRING_NAME_$"]
NSYS = ["TRUE", "FALSE", "CANCEL", "VERSION", "MAINCNTL", "MAINCNTH", "FREEVAR", "FREEMEM", "RESULT", "TCHST", "TCHX", "TCHY", "TCHTIME", "CSRX", "CSRY",
        "TABSTEP", "SPHITNO", "SPHITX", "SPHITY", "SPHITT", "KEYBOARD", "FUNCNO", "ICONPUSE", "ICONPAGE", "ICONPMAX", "ERL", "ERR"]
NSYS_RW = ["TABSTEP", "ICONPUSE", "ICONPAGE", "ICONPMAX"]
SSYS = ["TIME$", "DATE$", "PRGNAME$", "PACKAGE$", "MEM$"]
LABELS = ["@A", "@B", "@LOOP", "@S1", "@S2", "@D1", "@LONG_LABEL_NAMES"]
BANKS = ["BGU", "BGF", "BGD", "SPU", "SPD", "SPS", "SPK", "SPE", "BGU0", "BGU3", "BGF0", "BGD2", "SPU7", "SPS0", "SPS1", "SPD4", "BG", "SP", "GRP", "BGU0U", "SPU0L", "BGF0L", "BGU1L"]
RESN = ["PRG", "MEM", "GRP0", "GRP3", "SCU0", "SCU1", "COL0", "COL1", "COL2", "BGU0", "BGF0", "SPU0", "SPS1", "CHR", "GRP", "SCU0L", "SCU1U", "COL0L", "BGU1U"]
FILES = ["A", "B", "TEST", "FILE_1", "X9", "ABCDEFGH", "ABCDEFGHI", "", "a", "A.B", "NONE"]
BIG = ["524287", "-524287", "524287.999", "-524287.999", "262144", "-262144", "131072", "65536", "65535", "32768", "32767", "-32768", "4096", "-4096", "1024", "1023",
       "512", "511", "256", "255", "-255", "-256", "257", "128", "127", "100", "99", "98", "64", "63", "33", "32", "31", "25", "24", "23", "17", "16", "15", "9", "8", "7", "5", "4", "3", "2", "1", "0",
       "-1", "-2", "-3", "-.5", ".5", ".25", ".0003", "-.0003", ".999", "-.999", "1.5", "-1.5"]

# name -> list of argument shapes; tokens:
#  lo:hi number   S string   n s numeric / string variable   L label   a numeric array base   as string array base   V visible variable list
#  '...' in quotes: literal choices
STAT = {
    "PRINT": None, "LOCATE": ["0:31 0:23"], "COLOR": ["0:15", "0:15 0:15"], "CLS": [""], "VISIBLE": ["0:1 0:1 0:1 0:1 0:1 0:1"], "ACLS": [""],
    "VSYNC": ["0:3"], "WAIT": ["0:5"], "BEEP": ["", "0:69", "0:69 -8192:8192", "0:69 -8192:8192 0:127", "0:69 -8192:8192 0:127 0:127"],
    "BGCLIP": ["0:31 0:23 0:31 0:23"], "BGCLR": ["", "0:1"], "BGCOPY": ["0:1 -70:70 -70:70 -70:70 -70:70 -70:70 -70:70", "0:1 0:63 0:63 0:63 0:63 0:63 0:63"],
    "BGFILL": ["0:1 0:63 0:63 0:63 0:63 -1:65535", "0:1 0:63 0:63 0:63 0:63 tile", "0:1 0:63 0:63 0:63 0:63 0:1023 0:15 0:1 0:1", "0:1 -70:70 -70:70 -70:70 -70:70 0:1023 0:15 0:1 0:1"],
    "BGMCLEAR": ["", "0:127"], "BGMPLAY": ["0:29", "mml", "0:8 0:29", "mml mml", "0:8 0:29 -128:127"], "BGMPRG": ["0:127 0:127 0:127 0:127 0:127 mml", "0:127 mml"],
    "BGMSET": ["128:255 mml", "128:255 mml mml mml"], "BGMSETD": ["128:255 L"], "BGMSETV": ["0:7 0:7 0:255"], "BGMSTOP": ["", "0:7", "0:7 0:10"], "BGMVOL": ["0:127", "0:7 0:127"],
    "BGOFS": ["0:1 -600:600 -600:600", "0:1 -600:600 -600:600 0:60"], "BGPAGE": ["0:1"], "BGPUT": ["0:1 0:63 0:63 0:65535", "0:1 0:63 0:63 tile", "0:1 -70:70 -70:70 0:1023 0:15 0:1 0:1"],
    "BREPEAT": ["0:11", "0:11 0:255 0:255"], "CHRINIT": ["bank"], "CHRSET": ["bank 0:255 hex64"], "CLEAR": [""], "COLINIT": ["", "col", "col 0:255"], "COLSET": ["col 0:255 hex6"],
    "DTREAD": ["date n n n"], "TMREAD": ["time n n n"], "FILES": ["", "res", "file"], "GBOX": ["0:255 0:191 0:255 0:191", "-300:600 -300:600 -300:600 -300:600 0:255"],
    "GCIRCLE": ["0:255 0:191 0:100", "-300:600 -300:600 0:1100 0:255", "-300:600 -300:600 0:300 0:255 0:360 0:360"], "GCLS": ["", "0:255"], "GCOLOR": ["0:255"],
    "GCOPY": ["0:3 0:255 0:191 0:255 0:191 0:255 0:191", "0:255 0:191 0:255 0:191 0:255 0:191 0:1", "0:3 -300:600 -300:600 -300:600 -300:600 -300:600 -300:600 0:1", "0:3 -300:600 -300:600 -300:600 -300:600 -300:600 -300:600"],
    "GDRAWMD": ["0:1"], "GFILL": ["0:255 0:191 0:255 0:191", "-300:600 -300:600 -300:600 -300:600 0:255"], "GLINE": ["0:255 0:191 0:255 0:191", "-300:600 -300:600 -300:600 -300:600 0:255"],
    "GPAGE": ["0:1", "0:1 0:3 0:3"], "GPAINT": ["0:255 0:191", "0:255 0:191 0:255", "0:255 0:191 0:255 0:255"], "GPSET": ["0:255 0:191", "-300:600 -300:600 0:255"], "GPRIO": ["0:3"],
    "GPUTCHR": ["-20:270 -20:200 bank 0:255 0:15 1:8", "0:255 0:191 bank 0:511 0:15 0:1"], "ICONCLR": ["", "0:3"], "ICONSET": ["0:3 0:255"], "KEY": ["1:5 S"],
    "PNLSTR": ["0:31 0:23 S", "0:31 0:23 S 0:15"], "PNLTYPE": ["pnl"], "SPANGLE": ["0:99 -360:360", "0:99 -360:360 0:30", "0:99 -360:360 0:30 -1:1"],
    "SPANIM": ["0:99 1:10 1:20", "0:99 1:10 1:20 0:5"], "SPCHR": ["0:99 0:511", "0:99 0:511 0:15 0:1 0:1 0:3"], "SPCLR": ["", "0:99"],
    "SPCOL": ["0:99 -32:32 -32:32 0:64 0:64 0:1", "0:99 -32:32 -32:32 0:64 0:64 0:1 0:255"], "SPCOLVEC": ["0:99", "0:99 -10:10 -10:10"], "SPHOME": ["0:99 -128:127 -128:127"],
    "SPOFS": ["0:99 -300:600 -300:600", "0:99 -300:600 -300:600 0:60"], "SPPAGE": ["0:1"], "SPSCALE": ["0:99 0:200", "0:99 0:200 0:60"],
    "SPSET": ["0:99 0:511 0:15 0:1 0:1 0:3", "0:99 0:511 0:15 0:1 0:1 0:3 wh wh"], "SPSETV": ["0:99 0:7 -500:500"], "SWAP": ["n n", "s s"],
    "APPEND": ["resfile"], "SAVE": ["resfile"], "LOAD": ["resfile", "resfile 0:1"], "DELETE": ["resfile"], "RENAME": ["resfile file"], "EXEC": ["resfile"],
    "INPUT": ["V", "S;V"], "LINPUT": ["s", "S;s"], "READ": ["V"], "RESTORE": ["L"], "SORT": ["0:10 0:10 a", "0:10 0:10 a a as"], "RSORT": ["0:10 0:10 a", "0:10 0:10 as a"],
    "REBOOT": [""], "NEW": [""], "RUN": [""], "CONT": [""], "LIST": ["", "L"], "RECVFILE": [""], "SENDFILE": [""], "TALK": ["S"], "TALKSTOP": [""], "END": [""], "STOP": [""],
}
PAREN = {   # forms with an argument list in parentheses before the variables
    "BGREAD": ["0:1 0:63 0:63|n", "0:1 0:63 0:63|s", "0:1 0:63 0:63|n n n n"], "CHRREAD": ["bank 0:255|s"], "COLREAD": ["col 0:255|n n n"],
    "SPREAD": ["0:99|n", "0:99|n n", "0:99|n n n", "0:99|n n n n", "0:99|n n n n n"],
}
FUN = {
    "ABS": ["x"], "ASC": ["S"], "ATAN": ["x", "x x"], "BGCHK": ["0:1"], "BGMCHK": ["", "0:7"], "BGMGETV": ["0:7 0:7"], "BTRIG": [None], "BUTTON": [None, "0:3"], "CHKCHR": ["0:31 0:23"],
    "COS": ["x"], "DEG": ["x"], "EXP": ["-10:13"], "FLOOR": ["x"], "GSPOIT": ["0:255 0:191"], "ICONCHK": [None], "INSTR": ["S S", "0:9 S S"], "LEN": ["S"], "LOG": ["0:1000"],
    "PI": [None], "POW": ["0:100 -3:3"], "RAD": ["x"], "RND": ["0:1000"], "SGN": ["x"], "SIN": ["x"], "SPCHK": ["0:99"], "SPGETV": ["0:99 0:7"], "SPHIT": ["0:99", "0:99 0:99"],
    "SPHITRC": ["0:99 0:255 0:191 0:64 0:64", "0:99 0:255 0:191 0:64 0:64 -9:9 -9:9"], "SPHITSP": ["0:99 0:99"], "SQR": ["0:9999"], "TAN": ["x"], "VAL": ["S"], "TALKCHK": [None],
    "ADDR": ["n", "s", "a", "as"],
}
SFUN = {"CHR$": ["0:255"], "HEX$": ["x", "x 0:5"], "INKEY$": [None], "LEFT$": ["S 0:20"], "MID$": ["S 0:20 0:20"], "RIGHT$": ["S 0:20"], "STR$": ["x"], "SUBST$": ["S 0:20 0:20 S", "S 0:20 S"]}


class Fuzz:
    def __init__(self, rng, wild=.1, skip=(), vars=True):
        self.r, self.wild = rng, wild
        self.skip = set(skip)
        self.usevars = vars
        self.touched = set()   # variables the statement may change

    # ---- expressions
    def lit(self):
        r = self.r
        k = r.random()
        if k < .45:
            return str(r.randint(-3, 12))
        if k < .7:
            return r.choice(BIG)
        if k < .8:
            return "%d.%d" % (r.randint(0, 300), r.randint(0, 999))
        if k < .85:
            return "&H%X" % r.choice([0, 1, 15, 255, 4095, 65535, r.randrange(1 << 20)])
        if k < .88:
            return "&B" + bin(r.randrange(1 << r.randint(1, 16)))[2:]
        return str(r.randint(-524287, 524287))

    def num(self, depth=1):
        r = self.r
        k = r.random()
        if depth <= 0 or k < .35:
            if r.random() < .5 or not self.usevars:
                return self.lit()
            return self.nvar(False)
        if k < .42:
            return r.choice(NSYS)
        if k < .62:
            return self.fun(FUN, depth)
        if k < .70:
            return r.choice(["-", "NOT ", "!", "-"]) + self.wrap(self.num(depth - 1))
        if k < .76:
            return "%s%s%s" % (self.str(depth - 1), r.choice(["==", "!=", "<", ">", "<=", ">="]), self.str(depth - 1))
        op = r.choice(["+", "-", "*", "/", "%", " AND ", " OR ", " XOR ", "==", "!=", "<", ">", "<=", ">="])
        a, b = self.num(depth - 1), self.num(depth - 1)
        if r.random() < .5:
            a = self.wrap(a)
        if r.random() < .7 or b.startswith("-"):
            b = self.wrap(b)
        return a + op + b

    def wrap(self, s):
        return "(" + s + ")" if not s.replace(".", "").isalnum() else s

    def nvar(self, write):
        r = self.r
        k = r.random()
        if k < .7:
            v = r.choice(NV)
        elif k < .85:
            v = "Q" + self.sub(10)
        elif k < .94:
            v = "R" + self.sub(4, 5)
        elif k < .97 and write:
            v = r.choice(NSYS_RW)
        else:
            v = "U" + self.sub(10)
        if write:
            self.touched.add(v.split("[")[0].split("(")[0])
        return v

    def svar(self, write):
        r = self.r
        k = r.random()
        if k < .7:
            v = r.choice(SV)
        elif k < .85:
            v = "S$" + self.sub(6)
        elif k < .95:
            v = "T$" + self.sub(2, 3)
        elif write:
            v = "MEM$"
        else:
            v = "U$" + self.sub(10)
        if write:
            self.touched.add(v.split("[")[0].split("(")[0])
        return v

    def sub(self, *n):
        """a subscript list; either bracket, sometimes with the wrong count"""
        r = self.r
        a = [self.idx(x) for x in n]
        if r.random() < self.wild * .15:
            a = r.choice([[], a[:1], a + ["0"], ["", ""], a + ["1", "1"], ["\"X\""]])
        return ("(%s)" if r.random() < .3 else "[%s]") % ",".join(a)

    def idx(self, n):
        r = self.r
        if r.random() < self.wild:
            return r.choice([str(n), "-1", "-.5", str(n - 1) + ".9", "524287", "-524287", "65536", "32768", "262144", "I", "X", "A"])
        return r.choice([str(r.randrange(n)), str(r.randrange(n)), "0", str(n - 1)])

    def quoted(self, n=None):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 12]) if n is None else n
        k = r.random()
        if k < .6:
            s = "".join(r.choice("ABCabc019 .,-_&#@") for _ in range(n))
        elif k < .75:
            s = "".join(chr(r.choice([x for x in range(256) if x not in (13, 34)])) for _ in range(n))
        elif k < .85:
            s = "".join(r.choice("0123456789.-") for _ in range(n))
        else:
            s = "".join(r.choice("0123456789ABCDEF") for _ in range(n))
        return '"' + s + '"'

    def str(self, depth=1):
        r = self.r
        k = r.random()
        if depth <= 0 or k < .45:
            if r.random() < .6 or not self.usevars:
                return self.quoted()
            return self.svar(False)
        if k < .5:
            return r.choice(SSYS)
        if k < .75:
            return self.fun(SFUN, depth)
        if k < .92:
            return self.str(depth - 1) + "+" + self.str(depth - 1)
        return "%s*%d" % (self.wrap(self.str(depth - 1)), r.choice([0, 1, 2, 3, 10, 64, 100, 255, 256, 300, -1]))

    def fun(self, table, depth):
        r = self.r
        f = r.choice(list(table))
        shape = r.choice(table[f])
        if shape is None:
            return f + r.choice(["", "()"]) if f in ("PI",) else (f + "()" if f in ("BTRIG", "BUTTON", "ICONCHK", "INKEY$", "TALKCHK", "PI") and r.random() < .5 else f)
        return "%s(%s)" % (f, ",".join(self.args(shape, depth - 1)))

    # ---- arguments
    def args(self, shape, depth=1):
        out = [self.arg(t, depth) for t in shape.split()]
        if self.r.random() < self.wild * .1:
            k = self.r.random()
            if k < .4 and out:
                out.pop(self.r.randrange(len(out)))
            elif k < .8:
                v = self.num(0)
                self.touched.add(v.split('[')[0])
                out.insert(self.r.randint(0, len(out)), v)
            elif out:
                out[self.r.randrange(len(out))] = ""
        return out

    def arg(self, t, depth=1):
        r = self.r
        w = r.random() < self.wild
        if w and r.random() < .12:   # wrong kind altogether
            v = r.choice([self.quoted(), self.lit(), "Q", "A", "A$", "S$", self.num(1), self.str(1), "@A", ""])
            self.touched.add(v.split('[')[0])
            return v
        if t == "x":
            return self.num(depth)
        if ":" in t:
            lo, hi = (int(z) for z in t.split(":"))
            if w:
                k = r.random()
                if k < .3:
                    return str(r.choice([lo - 1, lo, hi, hi + 1, -lo, -hi, hi * 2]))
                if k < .6:
                    return r.choice(BIG)
                if k < .7:
                    return "%d.%d" % (r.randint(lo, hi) if lo >= 0 else r.randint(0, max(hi, 0)), r.choice([0, 5, 9, 99, 25]))
                return self.num(depth)
            return str(r.choice([r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi), lo, hi]))
        if t == "S":
            return self.str(depth) if w or r.random() < .3 else self.quoted()
        if t == "n":
            return self.nvar(True)
        if t == "s":
            return self.svar(True)
        if t == "a":
            v = r.choice(["Q", "Q", "P", "O", "U", "R"] if w else ["Q", "P", "O"])
            self.touched.add(v)
            return v
        if t == "as":
            v = r.choice(["S$", "U$", "T$"] if w else ["S$"])
            self.touched.add(v)
            return v
        if t == "L":
            if r.random() < .15:
                return '"%s"' % r.choice(LABELS + ["@", "A", "", "@NONE"])
            if w:
                return r.choice(["@NONE", self.str(1), "@A", "5", "A"])
            return r.choice(LABELS)
        if t == "bank":
            return '"%s"' % (r.choice(BANKS) if not w else r.choice(BANKS + ["", "B", "BG", "BGU9", "BGU-", "SPU8", "SPS2", "XXX0", "BGU0X", "BGU01", "BGFU", "SPULU"]))
        if t == "col":
            return '"%s"' % r.choice(["BG", "SP", "GRP", "BGU", "SPL", "GRPU", "BGL"] + (["", "X", "BG0", "GRPX", "S", "COL0"] if w else []))
        if t == "res":
            return '"%s"' % r.choice(RESN + (["", "X", "PRGX", "GRP9", "COL3", "SCU2", "SCU0X", "MEMM"] if w else []))
        if t == "file":
            return '"%s"' % r.choice(FILES)
        if t == "resfile":
            a, b = r.choice(RESN + ["PRG", "MEM", "GRP1"]), r.choice(FILES[:5])
            if w:
                a, b = r.choice(RESN + ["", ":", "X", "BGU9", "GRP4", "COL3", "SCU2"]), r.choice(FILES + ["../A", "/A", "A/B", "A" * 20, ":", "AB:CD", "\xe3"])
            return '"%s"' % (a + ":" + b if r.random() < .8 else b)
        if t == "hex64":
            n = 64 if not w else r.choice([0, 1, 63, 65, 32, 128, 64])
            if n > 70 or r.random() < .3:
                return r.choice(['"0"*%d' % n, '"F8"*%d' % (n // 2), "X$", "A$*64", '"G"*64'])
            return '"%s"' % "".join(r.choice("0123456789ABCDEF" + ("xgG -" if w else "")) for _ in range(min(n, 64)))
        if t == "hex6":
            n = 6 if not w else r.choice([0, 1, 5, 7, 12])
            return '"%s"' % "".join(r.choice("0123456789ABCDEF" + ("xgG -" if w else "")) for _ in range(n))
        if t == "tile":
            n = 4 if not w else r.choice([0, 1, 3, 5, 8])
            return '"%s"' % "".join(r.choice("0123456789ABCDEF" + ("xgG -" if w else "")) for _ in range(n))
        if t == "pnl":
            return '"%s"' % r.choice(["OFF", "PNL", "KYA", "KYM", "KYK"] + (["", "O", "XXX", "OFFX", "kya", "KYAA"] if w else []))
        if t == "date":
            return '"%s"' % r.choice(["2001/02/03", "9999/12/31"]) if not w else r.choice(["DATE$", "TIME$", '"2001/13/03"', '"1/2/3"', '""', '"////"', self.str(1), '"2001/02/031"', '"-001/02/03"'])
        if t == "time":
            return '"%s"' % r.choice(["01:02:03", "23:59:59"]) if not w else r.choice(["DATE$", "TIME$", '"24:60:60"', '"1:2:3"', '""', '":::"', self.str(1), '"01:02:031"', '"-1:02:03"'])
        if t == "wh":
            return str(r.choice([8, 16, 32, 64] if not w else [0, 7, 8, 24, 64, 128, -8]))
        if t == "mml":
            return r.choice(['"T120CDE"', '"@1V100[CDE]4"', '""', "A$", '"$0=1"'])
        if t == "V":
            return ",".join(self.r.choice([self.nvar, self.svar])(True) for _ in range(r.choice([1, 1, 2, 3])))
        if t == "S;V":
            return self.arg("S", depth) + ";" + self.arg("V", depth)
        if t == "S;s":
            return self.arg("S", depth) + ";" + self.arg("s", depth)
        raise KeyError(t)

    # ---- statements
    def print_(self):
        r = self.r
        out = r.choice(["PRINT ", "PRINT ", "?"])
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            out += r.choice([self.num, self.str])(1) + r.choice([";", ",", ",", ";;", ",,", ""])
        return out

    def assign(self):
        r = self.r
        if r.random() < .6:
            return "%s=%s" % (self.nvar(True), self.num(2))
        return "%s=%s" % (self.svar(True), self.str(2))

    def named(self, name):
        if name == "PRINT":
            return self.print_()
        if name in PAREN:
            a, b = self.r.choice(PAREN[name]).split("|")
            return "%s(%s),%s" % (name, ",".join(self.args(a)), ",".join(self.args(b)))
        sep = self.r.choice([" ", " ", " ", "", "  "])
        a = ",".join(self.args(self.r.choice(STAT[name])))
        if a and sep == "" and (a[0].isalnum() or a[0] in "_."):
            sep = " "
        return name + (sep + a if a else "")

    def simple(self):
        r = self.r
        k = r.random()
        if k < .2:
            return self.assign()
        if k < .28:
            return self.print_()
        while True:
            name = r.choice(list(STAT) + list(PAREN))
            if name in self.skip or name in ("NEW", "RUN", "CONT", "REBOOT", "END", "STOP", "ACLS", "EXEC") and r.random() < .8:
                continue
            if self.r.random() < self.wild * .01:
                return name
            return self.named(name)

    def dim(self):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2])):
            n = r.choice(["Q", "R", "S$", "T$", "U", "U$", "P", "O", "A", "W"])
            d = [r.choice(["10", "10", "4", "2", "1", "0", "-1", "5.5", "1000", "524287", "65536", "A", "262144", "100"]) if r.random() < self.wild + .05 else "10" for _ in range(1 if n not in ("R", "T$") else 2)]
            if r.random() < self.wild * .1:
                d = r.choice([[], [""], d + ["2", "2"], ["\"X\""]])
            out.append((r.choice(["%s[%s]", "%s[%s]", "%s(%s)"])) % (n, ",".join(d)))
        return "DIM " + ",".join(out)

    def flow(self):
        r = self.r
        L = lambda: self.arg("L")
        k = r.randrange(16)
        v = r.choice(NV[:5])
        if k == 0:
            return "FOR %s=%s TO %s" % (v, self.num(0), self.num(0))
        if k == 1:
            return "FOR %s=%s TO %s STEP %s" % (self.nvar(True), self.num(1), self.num(1), self.num(0))
        if k == 2:
            return "FOR %s=0 TO 3:%s:NEXT" % (v, self.simple())
        if k == 3:
            return r.choice(["NEXT", "NEXT", "NEXT " + v])
        if k == 4:
            return "GOTO " + L()
        if k == 5:
            return "GOSUB " + L()
        if k == 6:
            return "RETURN"
        if k == 7:
            return "IF %s THEN %s ELSE %s" % (self.num(1), self.simple(), self.simple())
        if k == 8:
            return "IF %s THEN %s" % (self.num(1), r.choice([L(), self.simple(), "RETURN", "NEXT"]))
        if k == 9:
            return "IF %s GOTO %s" % (self.num(1), L())
        if k == 10:
            return "ON %s %s %s" % (self.num(1), r.choice(["GOTO", "GOSUB"]), ",".join(L() for _ in range(r.randint(1, 4))))
        if k == 11:
            return r.choice(["ELSE", "THEN", "TO 3", "STEP 2", "ENDIF", "END", "STOP"])
        if k == 12:
            return "RESTORE " + L()
        if k == 13:
            return "IF %s THEN %s ELSE IF %s THEN %s" % (self.num(0), self.simple(), self.num(0), self.simple())
        if k == 14:
            return "DATA " + ",".join(r.choice([self.lit(), self.quoted(), "ABC", "", " x y "]) for _ in range(r.randint(1, 5)))
        return "READ " + self.arg("V")

    def statement(self):
        r = self.r
        k = r.random()
        if k < .82:
            return self.simple()
        if k < .97:
            return self.flow()
        return self.dim()

    def line(self, limit=100):
        r = self.r
        for _ in range(50):
            s = self.statement()
            if len(s) <= limit:
                break
        else:
            s = "CLS"
        while r.random() < .35:
            t = self.statement()
            if len(s) + 1 + len(t) > limit:
                break
            s += ":" + t
        if r.random() < .03:
            s = s[:limit - 5] + r.choice(["'" + "x" * 3, "REM", ":", "::", " ", "\t"])
        return s[:limit]

    def program(self, n):
        r = self.r
        out = []
        if r.random() < .85:
            out += ["DIM Q[10],R[4,5],S$[6],T$[2,3]", "DIM P[10],O[10]"]
        if r.random() < .5:
            out.append("FOR I=0 TO 9:SPSET I,I*4,0,0,0,0:SPOFS I,I*9,I*7:NEXT")
        labs = LABELS[:]
        r.shuffle(labs)
        body = []
        for _ in range(n):
            body.append(self.line())
        for l in labs[:r.randint(2, 7)]:
            body.insert(r.randint(0, len(body)), l)
        return out + body


def text(lines):
    return "\r".join(lines) + "\r"
