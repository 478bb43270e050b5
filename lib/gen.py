"""Random programs for the reference interpreter."""
from mini import *

TSIZE = 300
LOOPV = ["I", "J", "K", "L", "I2", "J_"]


class Gen:
    def __init__(self, rng, rich=False):
        self.r, self.rich = rng, rich
        self.k = 0
        self.lab = 0
        self.subs = []
        self.feat = set()

    def tr(self):
        self.k += 1
        return trace(self.k)

    def label(self):
        self.lab += 1
        n = self.lab
        return self.r.choice(["L%d", "A%dB", "LONG_LABEL_%d", "_%d", "%dX"]) % n

    def x(self, depth=1, vs=("A", "B", "I", "J")):
        return gen_expr(self.r, depth, "N", nvars=vs, svars=("A$",), fns=False)

    def cond(self):
        r = self.r
        if r.random() < .2:
            return self.r.choice([num(0), num(1), num(-1), ("num", ".25", 1024), ("num", ".0001", 0)])
        return ("bin", r.choice(["==", "!=", "<", ">", "<=", ">="]), self.x(), num(r.randint(-1, 4)))

    def bounds(self):
        r = self.r
        k = r.random()
        if k < .35:
            a = r.randint(-2, 3)
            return num(a), num(a + r.randint(-1, 4)), None
        if k < .6:
            a = r.randint(-5, 5)
            st = r.choice([1, 2, 3, -1, -2, -3])
            return num(a), num(a + st * r.randint(-1, 3) + r.choice([0, 0, 1, -1])), num(st)
        if k < .8:
            st = r.choice([("num", ".5", 2048), ("un", "-", ("num", ".5", 2048)), ("num", ".25", 1024), ("un", "-", ("num", "1.5", 6144)), ("num", ".3", 1228)])
            a = r.randint(-2, 2)
            return num(a), num(a + r.choice([0, 1, 1, -1, -1])), st
        if k < .9:
            return self.x(), self.x(), r.choice([None, num(1), num(-1), num(2)])
        return num(r.randint(0, 2)), num(r.choice([0, 1, 2])), r.choice([None, self.x()])

    def body(self, depth, n, inloop=(), insub=False):
        out = []
        for _ in range(n):
            out += self.item(depth, inloop, insub)
        return out

    def simple(self, inloop, insub):
        """statements allowed inside an IF branch"""
        r = self.r
        k = r.random()
        if self.rich and r.random() < .5:
            return self.rich_item(True)
        if k < .5:
            return self.tr()
        if k < .7:
            return [let(r.choice("AB"), self.x())]
        if k < .8 and insub:
            self.feat.add("return_in_if")
            return self.tr() + [("return",)]
        if k < .85 and self.subs:
            self.feat.add("on_in_if")
            return [("on", self.x(), "GOSUB", [r.choice(self.subs) for _ in range(r.randint(1, 3))])] + self.tr()
        if k < .93 and self.subs:
            s = r.choice(self.subs)
            return [("gosub", ("lab", s) if r.random() < .7 else ("s", ("str", b"@" + s.encode())))]
        if k > .95 and self.dlabels:
            self.feat.add("restore_in_if")
            return [("restore", ("lab", r.choice(self.dlabels)))]
        return self.tr()

    def item(self, depth, inloop, insub):
        r = self.r
        k = r.random()
        if self.rich and r.random() < (.5 if depth > 1 else .7):
            return self.rich_item()
        if depth <= 0 or k < .2:
            return self.tr()
        if k < .28:
            return [let(r.choice("AB"), self.x())]
        if k < .5:
            free = [v for v in LOOPV if v not in inloop]
            if not free:
                return self.tr()
            v = r.choice(free)
            a, b, st = self.bounds()
            self.feat.add("for_step" if st else "for")
            mid = []
            if r.random() < .15:  # the body moves the counter itself
                self.feat.add("for_moved")
                if r.random() < .5:
                    st = num(0)
                mid = [let(v, ("bin", r.choice("+++-"), var(v), r.choice([num(1), num(2), ("num", ".5", 2048)])))]
                if r.random() < .3:
                    mid = [("if", self.cond(), mid, None)]
            return [("for", v, a, b, st)] + self.tr() + mid + self.body(depth - 1, r.randint(0, 2), inloop + (v,), insub) + \
                [("next", r.choice([None, v]))] + (self.tr() if r.random() < .6 else [])
        if k < .66:
            self.feat.add("if")
            t = sum((self.simple(inloop, insub) for _ in range(r.randint(1, 2))), [])
            q = r.random()
            if q < .4:
                el = None
            elif q < .75:
                self.feat.add("else")
                el = self.simple(inloop, insub)
            else:
                self.feat.add("else_if")
                el = [("if", self.cond(), self.simple(inloop, insub), self.simple(inloop, insub) if r.random() < .5 else None)]
            if el is None and r.random() < .25:
                self.feat.add("then_if")
                t = t + [("if", self.cond(), self.simple(inloop, insub), None)]
            return [("if", self.cond(), t, el)] + self.tr()
        if k < .72:
            self.feat.add("ifgoto")
            l, m = self.label(), self.label()
            form = r.randrange(4)
            c = self.cond()
            if form == 0:
                s = ("ifgoto", c, l, None)
            elif form == 1:
                s = ("if", c, ("lab", l), None)
            elif form == 2:
                s = ("ifgoto", c, l, ("lab", m))
            else:
                s = ("if", c, self.tr(), ("lab", l))
            return [s] + self.tr() + [("label", m)] + self.tr() + [("label", l)] + self.tr()
        if k < .78:
            self.feat.add("goto_loop")
            l = self.label()
            w = "W%d" % self.lab
            return [let(w, num(r.randint(0, 3))), ("label", l)] + self.tr() + self.body(depth - 1, r.randint(0, 1), inloop, insub) + \
                [let(w, ("bin", "-", var(w), num(1))), ("ifgoto", ("bin", ">", var(w), num(0)), l, None)]
        if k < .84:
            self.feat.add("goto_skip")
            l = self.label()
            t = ("lab", l) if r.random() < .6 else ("s", r.choice([("str", b"@" + l.encode()), ("bin", "+", ("str", b"@"), ("str", l.encode()))]))
            return [("goto", t)] + self.tr() + [("label", l)] + self.tr()
        if k < .9 and self.subs:
            self.feat.add("gosub")
            s = r.choice(self.subs)
            return [("gosub", ("lab", s) if r.random() < .7 else ("s", ("str", b"@" + s.encode())))] + self.tr()
        if k < .95:
            self.feat.add("on_goto")
            ls = [self.label() for _ in range(r.randint(1, 4))]
            out = [("on", self.x(), "GOTO", ls)] + self.tr()
            for l in ls:
                out += [("label", l)] + self.tr()
            return out
        if self.subs:
            self.feat.add("on_gosub")
            return [("on", self.x(), "GOSUB", [r.choice(self.subs) for _ in range(r.randint(1, 4))])] + self.tr()
        return self.tr()

    # ---- statements on strings, arrays and DATA
    NV, SV, NA, SA = ["A", "B", "NUM_1"], ["A$", "S$", "NAME_2$"], ["Q", "Z"], ["Q$", "Z$"]

    def rx(self, t, depth=2):
        r = self.r
        return gen_expr(r, depth, t, nvars=self.NV, svars=self.SV, narr=[(n, (4,)) for n in self.NA], sarr=[(n, (4,)) for n in self.SA])

    def idx(self):
        r = self.r
        k = r.random()
        if k < .7:
            return num(r.randint(0, 9))
        if k < .95:
            return ("bin", "%", ("fn", "ABS", [("fn", "FLOOR", [var(r.choice(self.NV))])]), num(r.choice([4, 10])))
        return num(r.choice([10, 11, -1]))

    def loc(self, t):
        r = self.r
        if r.random() < .55:
            return ("var", r.choice(self.SV if t == "S" else self.NV))
        return ("arr", r.choice(self.SA if t == "S" else self.NA), [self.idx()])

    def item_data(self):
        r = self.r
        k = r.random()
        if k < .4:
            t = r.choice(["%d", "-%d", "%d.5", "0%d"]) % r.randint(0, 500)
            return ("n", t)
        if k < .6:
            return ("u", rnd_text(r, r.randint(1, 6), b"ABCxyz0129_#%&!"))
        if k < .9:
            return ("q", rnd_text(r, r.randint(0, 8), b"ABx ,:;'01-_"))
        return ("e", "")

    def rich_item(self, inline=False):
        r = self.r
        k = r.random()
        t = r.choice("NSS")
        if k < .6:
            self.feat.add("let_" + t)
            return [("let", self.loc(t), self.rx(t))]
        if k < .7:
            self.feat.add("swap")
            return [("swap", self.loc(t), self.loc(t))]
        if k < .8:
            self.feat.add("read")
            return [("read", [self.loc(r.choice("NSS")) for _ in range(r.randint(1, 3))])]
        if k < .83:
            self.feat.add("print")
            n = r.randint(1, 3)
            return [("print", [self.rx(r.choice("NS"), 1) for _ in range(n)], [r.choice(",;") for _ in range(n - 1)] + [r.choice(["", "", ";", ","])])]
        if k < .86 and self.dlabels:
            self.feat.add("restore")
            return [("restore", ("lab", r.choice(self.dlabels)))]
        if k < .89:
            self.feat.add("sort")
            return [("sort", r.random() < .5, num(r.randint(0, 4)), num(r.randint(0, 6)), [r.choice(self.NA + self.SA)])]
        if k < .895:
            self.feat.add("dim")
            return [("dim", [(r.choice(["Y", "Y$"]), [num(r.randint(0, 5))] + ([num(3)] if r.random() < .5 else []))])]
        if k < .96 and not inline:
            self.feat.add("str_loop")
            v = r.choice(self.SV)
            return [let(v, r.choice([("str", b""), ("str", b"xy")])), ("for", "C", num(0), num(r.randint(2, 30)), None), ("let", ("var", v), ("bin", "+", var(v), r.choice([("str", b"ab"), ("fn", "STR$", [var("C")])]))),
                    ("if", ("bin", ">", ("fn", "LEN", [var(v)]), num(8)), [("let", ("var", v), ("fn", "MID$", [var(v), num(2), num(6)]))], None), ("next", "C")]
        return self.tr()

    dlabels = ()

    def leave_loop(self, inloop):
        """GOTO out of an inner loop; the outer NEXT names its variable"""
        self.feat.add("leave_loop")
        l = self.label()
        return [("for", "P", num(0), num(2), None)] + self.tr() + \
            [("for", "Q", num(0), num(3), None)] + self.tr() + [("ifgoto", ("bin", "==", var("Q"), num(1)), l, None), ("next", "Q"), ("label", l)] + \
            self.tr() + [("next", "P")] + self.tr()

    def program(self):
        r = self.r
        ns = r.randint(0, 3)
        names = [self.label() for _ in range(ns)]
        prog = [("dim", [("T", [num(TSIZE)])]), let("N", num(0))]
        self.subs = names
        tail = []
        if self.rich:
            self.dlabels = [self.label() for _ in range(r.randint(1, 3))]
            for l in self.dlabels:
                tail.append(("label", l))
                for _ in range(r.randint(1, 3)):
                    tail.append(("data", [self.item_data() for _ in range(r.randint(1, 5))]))
            if r.random() < .3:
                prog, tail = prog + tail, []
        prog += self.body(3, r.randint(4, 9) if self.rich else r.randint(2, 5))
        if r.random() < .15:
            prog += self.leave_loop(())
        q = r.random()
        if q < .05:
            prog += [("return",)] + self.tr()
        elif q < .1:
            prog += [("next", r.choice([None, "Z"]))] + self.tr()
        elif q < .14:
            prog += [r.choice([("goto", ("lab", "NOWHERE")), ("gosub", ("lab", "NOWHERE")), ("goto", ("s", ("str", b"@NOWHERE"))), ("goto", ("s", ("str", b""))),
                               ("on", num(0), "GOTO", ["NOWHERE"]), ("ifgoto", num(1), "NOWHERE", None), ("gosub", ("s", ("str", b"L1")))])] + self.tr()
        elif q < .18:
            self.feat.add("deep")
            l = self.label()
            m = r.randint(100, 299)
            prog += [let("D", num(0)), ("label", l), let("D", ("bin", "+", var("D"), num(1))), ("if", ("bin", "<", var("D"), num(m)), [("gosub", ("lab", l))], None),
                     let("C", ("bin", "+", var("C"), num(1))), ("if", ("bin", "<", var("C"), var("D")), [("return",)], None)] + self.tr()
        elif q < .21:
            self.feat.add("for_overflow")
            e = r.choice([524287, 524286])
            prog += [("for", "V", num(e - 1), num(524287), r.choice([None, num(3), num(2)]))] + self.tr() + [("next", None)]
        elif q < .24:
            prog += [("for", "V", num(3), num(1), None)] + self.tr()
        elif q < .27:
            prog += [("stop",)] + self.tr()
        if r.random() < .9 or names:
            prog += [("end",)]
        for i, nm in enumerate(names):
            self.subs = names[i + 1:]
            prog += [("label", nm)] + self.tr() + self.body(2, r.randint(0, 2), (), True)
            if r.random() < .2:
                self.feat.add("return_in_for")
                v = r.choice(LOOPV)
                prog += [("for", v, num(0), num(r.randint(0, 3)), None)] + self.tr() + \
                    [("if", ("bin", "==", var(v), num(r.randint(0, 2))), [("return",)], None), ("next", r.choice([None, v]))]
            prog += [("return",)]
        return prog + tail

    def soup(self):
        r = self.r
        n = r.randint(3, 8)
        names = [self.label() for _ in range(n)]
        prog = [("dim", [("T", [num(r.randint(10, 80))])]), let("N", num(0))]
        for nm in names:
            prog += [("label", nm)] + self.tr()
            for _ in range(r.randint(0, 3)):
                q = r.random()
                if q < .15:
                    prog.append(("for", r.choice("IJ"), num(r.randint(0, 1)), num(r.randint(1, 3)), r.choice([None, num(1), num(2)])))
                elif q < .35:
                    prog.append(("next", r.choice([None, None, "I", "J"])))
                elif q < .5:
                    prog.append(("gosub", ("lab", r.choice(names))))
                elif q < .65:
                    prog.append(("return",))
                elif q < .72:
                    prog.append(("goto", ("lab", r.choice(names))))
                elif q < .84:
                    prog.append(("ifgoto", self.cond(), r.choice(names), ("lab", r.choice(names)) if r.random() < .4 else None))
                elif q < .92:
                    prog.append(("on", ("bin", "%", var("N"), num(4)), r.choice(["GOTO", "GOSUB"]), [r.choice(names) for _ in range(r.randint(1, 4))]))
                else:
                    prog.append(("if", self.cond(), r.choice([[("return",)], [("next", None)], [("gosub", ("lab", r.choice(names)))], [("end",)]]), None))
                if r.random() < .5:
                    prog += self.tr()
        self.feat.add("soup")
        return prog




def rename(p, f):
    """the same program with every variable name mapped through f"""
    if isinstance(p, tuple):
        if p and p[0] in ("var",):
            return ("var", f(p[1]))
        if p and p[0] == "arr":
            return ("arr", f(p[1]), rename(p[2], f))
        if p and p[0] == "for":
            return ("for", f(p[1])) + tuple(rename(x, f) for x in p[2:])
        if p and p[0] == "next":
            return ("next", f(p[1]) if p[1] else None)
        if p and p[0] == "dim":
            return ("dim", [(f(n), rename(x, f)) for n, x in p[1]])
        if p and p[0] == "sort":
            return p[:2] + (rename(p[2], f), rename(p[3], f), [f(n) for n in p[4]])
        if p and p[0] in ("data", "label", "lab", "num", "str", "rem"):
            return p
        return tuple(rename(x, f) for x in p)
    if isinstance(p, list):
        return [rename(x, f) for x in p]
    return p
