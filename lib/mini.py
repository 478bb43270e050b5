"""Programs as data: a reference interpreter for the statement language, a
renderer that writes a program in many equivalent layouts, and generators.

Program: list of items
  ('label', name) | ('data', [item]) | statement
DATA item: ('q', bytes) | ('u', bytes) | ('n', text)  (quoted, bare word, number)
Statements
  ('let', lv, x)  ('for', var, a, b, step|None)  ('next', var|None)
  ('if', cond, [stmt], [stmt]|None)   branches may also be ('lab', name): THEN @L
  ('ifgoto', cond, name, [stmt]|('lab', n)|None)
  ('goto', t) ('gosub', t) with t = ('lab', name) | ('s', expr)
  ('on', x, 'GOTO'|'GOSUB', [names])
  ('return',) ('end',) ('stop',)
  ('read', [lv]) ('restore', t) ('dim', [(name, [x])]) ('swap', lv, lv) ('clear',)
  ('sort', desc, start, n, [names])  ('print', [x], [separator])
lv: ('var', name) | ('arr', name, [x])
"""
from vlib import *
from ref import *


class Limit(Exception):
    pass


SUBSCRIPT = {E.SUBSCRIPT_OUT_OF_RANGE, E.SUBSCRIPT_OUT_OF_RANGE_X, E.SUBSCRIPT_OUT_OF_RANGE_Y}
CALLS_MAX = 255


def same_err(a, b):
    return a == b or (a in SUBSCRIPT and b in SUBSCRIPT)


def default(name):
    return b"" if name.endswith("$") else 0


class Machine:
    """Reference interpreter.  State survives between runs as in the real system."""

    def __init__(self):
        self.vars, self.arrs = {}, {}
        self.steps = 0
        self.maybe = set()      # arrays that a failed access may have created
        self.res = E.NONE

    # ---- storage
    def dims(self, name, dims):
        if name in self.maybe:
            raise Skip()
        if name in self.arrs:
            raise PtcError(E.DUPLICATE_DIM)
        n = 1
        for d in dims:
            n *= d
        self.arrs[name] = (list(dims), [default(name)] * n)

    def cell(self, name, idx):
        idx = [i >> 12 for i in idx]
        if name in self.maybe:
            raise Skip()
        if name not in self.arrs:
            if not all(0 <= i < 10 for i in idx):
                self.maybe.add(name)
            else:
                self.dims(name, [10] * len(idx))
        if name in self.maybe:
            raise PtcError(E.SUBSCRIPT_OUT_OF_RANGE)
        dims, cells = self.arrs[name]
        d = dims if len(dims) == 2 else [dims[0], 1]
        i = idx if len(idx) == 2 else [idx[0], 0]
        if not 0 <= i[0] < d[0]:
            raise PtcError(E.SUBSCRIPT_OUT_OF_RANGE_X)
        if not 0 <= i[1] < d[1]:
            raise PtcError(E.SUBSCRIPT_OUT_OF_RANGE_Y)
        return cells, i[0] + i[1] * d[0]

    def look(self, name, idx):
        c, i = self.cell(name, idx)
        return c[i]

    def ev(self, x):
        env = self.vars
        env["@arr"] = self.look
        return evaluate(x, env)

    def ref(self, lv):
        """evaluated location"""
        if lv[0] == "var":
            return lv
        c, i = self.cell(lv[1], [self.ev(x) for x in lv[2]])
        return ("cell", c, i)

    def get(self, loc):
        if loc[0] == "var":
            return self.vars.get(loc[1], default(loc[1]))
        return loc[1][loc[2]]

    def put(self, loc, v):
        if loc[0] == "var":
            self.vars[loc[1]] = v
        else:
            loc[1][loc[2]] = v

    # ---- compile to flat operations
    def compile(self, prog):
        ops, labels, data = [], {}, []

        def stmts(l, top=False):
            if isinstance(l, tuple):
                ops.append(("goto", l))
                return
            for s in l:
                one(s, top)

        def one(s, top):
            k = s[0]
            if k in ("if", "ifgoto"):
                at = len(ops)
                ops.append(None)
                stmts(s[2] if k == "if" else ("lab", s[2]))
                if s[3] is not None:
                    j = len(ops)
                    ops.append(None)
                    ops[at] = ("ifz", s[1], len(ops))
                    stmts(s[3])
                    ops[j] = ("jmp", len(ops))
                else:
                    ops[at] = ("ifz", s[1], len(ops))
            else:
                ops.append(s + (top,) if k in ("for", "next") else s)
        for it in prog:
            if it[0] == "label":
                if it[1] in labels:
                    raise PtcError(E.LABEL_ADD_FAILURE)
                labels[it[1]] = (len(ops), len(data))
            elif it[0] == "data":
                data += [d + (len(ops),) for d in it[1]]
            elif it[0] != "rem":
                one(it, True)
        return ops, labels, data

    def run(self, prog, limit=4000):
        """returns the error code; raises Limit when the program is too long to be useful"""
        try:
            ops, labels, data = self.compile(prog)
        except PtcError as e:
            self.res = e.code
            return self.res
        self.ops, self.labels, self.data = ops, labels, data
        self.calls, self.dp, self.pc = [], 0, 0
        n = 0
        err = E.NONE
        try:
            while self.pc < len(ops):
                n += 1
                if n > limit:
                    raise Limit()
                op = ops[self.pc]
                self.pc += 1
                self.step(op)
        except PtcError as e:
            err = e.code
        self.steps = n
        self.res = err
        return err

    def target(self, t):
        if t[0] == "lab":
            name = t[1]
        else:
            s = self.ev(t[1])
            if not (2 <= len(s) <= 17) or s[:1] != b"@":
                raise PtcError(E.LABEL_NOT_FOUND)
            name = s[1:].decode("latin-1")
        if name not in self.labels:
            raise PtcError(E.LABEL_NOT_FOUND)
        return self.labels[name]

    def push(self, e):
        if len(self.calls) >= CALLS_MAX:
            raise PtcError(E.OUT_OF_MEMORY)
        self.calls.append(e)

    def step(self, op):
        k = op[0]
        if k == "let":
            # the destination is evaluated first
            loc = self.ref(op[1])
            v = self.ev(op[2])
            self.put(loc, v)
        elif k == "ifz":
            if self.ev(op[1]) == 0:
                self.pc = op[2]
        elif k == "jmp":
            self.pc = op[1]
        elif k == "goto":
            self.pc = self.target(op[1])[0]
        elif k == "gosub":
            t = self.target(op[1])[0]
            self.push(("G", self.pc))
            self.pc = t
        elif k == "on":
            i = self.ev(op[1]) >> 12
            if 0 <= i < len(op[3]):
                t = self.target(("lab", op[3][i]))[0]
                if op[2] == "GOSUB":
                    self.push(("G", self.pc))
                self.pc = t
        elif k == "return":
            while self.calls and self.calls[-1][0] == "F":
                self.calls.pop()
            if not self.calls:
                raise PtcError(E.RETURN_WITHOUT_GOSUB)
            self.pc = self.calls.pop()[1]
        elif k == "for":
            v = op[1]
            self.vars[v] = self.ev(op[2])
            if len(self.calls) >= CALLS_MAX:
                raise PtcError(E.OUT_OF_MEMORY)
            end, st = self.ev(op[3]), self.ev(op[4]) if op[4] is not None else 4096
            if (st < 0 and end > self.vars[v]) or (st >= 0 and end < self.vars[v]):
                self.skip(v)
            else:
                self.push(("F", v, self.pc, op))
        elif k == "next":
            v = op[1]
            for i in range(len(self.calls) - 1, -1, -1):
                c = self.calls[i]
                if c[0] == "F" and (v is None or c[1] == v):
                    break
            else:
                raise PtcError(E.NEXT_WITHOUT_FOR)
            f = c[3]
            end, st = self.ev(f[3]), self.ev(f[4]) if f[4] is not None else 4096
            cur = fit(self.vars[c[1]] + st)
            self.vars[c[1]] = cur
            if (st < 0 and end > cur) or (st >= 0 and end < cur):
                del self.calls[i]
            else:
                self.pc = c[2]
        elif k == "end":
            self.pc = len(self.ops)
        elif k == "stop":
            raise PtcError(E.BREAK)
        elif k == "read":
            locs = [self.ref(l) for l in op[1]]
            for lv, loc in zip(op[1], locs):
                if self.dp >= len(self.data):
                    raise PtcError(E.OUT_OF_DATA)
                self.put(loc, read_item(self.data[self.dp], lv[1].endswith("$")))
                self.dp += 1
        elif k == "restore":
            self.dp = self.target(op[1])[1]
        elif k == "dim":
            for name, xs in op[1]:
                d = [self.ev(x) >> 12 for x in xs]
                if any(i < 0 for i in d):
                    raise PtcError(E.OUT_OF_RANGE)
                self.dims(name, d)
        elif k == "swap":
            a, b = self.ref(op[1]), self.ref(op[2])
            va, vb = self.get(a), self.get(b)
            self.put(a, vb)
            self.put(b, va)
        elif k == "print":
            for x in op[1]:
                self.ev(x)
        elif k == "clear":
            self.vars, self.arrs = {}, {}
            self.maybe = set()
            self.calls = [c for c in self.calls if c[0] != "F"]
        elif k == "sort":
            self.sort(op)
        else:
            raise AssertionError(op)

    def skip(self, v):
        """first statement after the NEXT that closes this loop"""
        nest, i = [v], self.pc
        while i < len(self.ops):
            o = self.ops[i]
            if o[0] == "for" and o[-1]:
                nest.append(o[1])
            elif o[0] == "next" and o[-1]:
                if o[1] is not None and o[1] != nest[-1]:
                    raise Skip()
                nest.pop()
                if not nest:
                    self.pc = i + 1
                    return
            i += 1
        if len(nest) > 1:
            raise Skip()
        raise PtcError(E.FOR_WITHOUT_NEXT)

    def sort(self, op):
        names = op[4]
        arrs = []
        for a in names:
            if a not in self.arrs:
                self.dims(a, [10])
        for a in names:
            if len(self.arrs[a][0]) == 2:
                raise PtcError(E.SORT_2D)
            arrs.append(self.arrs[a][1])
        m = min(len(a) for a in arrs)
        s = self.ev(op[2]) >> 12
        if not 0 <= s <= m - 1:
            raise PtcError(E.OUT_OF_RANGE)
        n = self.ev(op[3]) >> 12
        if not 0 <= n <= m - s:
            raise PtcError(E.OUT_OF_RANGE)
        key = (lambda i: W(arrs[0][i])) if names[0].endswith("$") else (lambda i: arrs[0][i])
        ks = [key(i) for i in range(s, s + n)]
        if len(set(ks)) != len(ks) and len(arrs) > 1:
            raise Skip()     # the order of equal rows is not defined
        order = sorted(range(s, s + n), key=key, reverse=op[1])
        for a in arrs:
            a[s:s + n] = [a[i] for i in order]


def read_item(d, string):
    kind, t = d[0], d[1]
    if kind == "bad":
        raise PtcError(E.READ_FAILURE)
    b = t.encode("latin-1") if isinstance(t, str) else t
    if string:
        return b
    t = b.lstrip(b" ")
    if not t:
        return 0
    if any(c not in b"0123456789-." for c in t):
        raise PtcError(E.READ_FAILURE)
    v = parse_prefix(t)
    if not I32MIN <= v <= I32MAX:
        raise PtcError(E.OVERFLOW)
    return v


# ------------------------------------------------------------- rendering
class Layout:
    """one concrete way of writing a program"""

    def __init__(self, rng, spaces=0.0, parens=0.0, lower=0.0, join=0.0, comments=0.0, blank=0.0, brackets=0.5):
        self.r = rng
        self.st = Style(rng, spaces, parens, lower, brackets)
        self.join, self.comments, self.blank = join, comments, blank

    def kw(self, s):
        return self.st.kw(s)

    def lv(self, lv):
        return render(("arr", lv[1], lv[2]) if lv[0] == "arr" else lv, Style(self.r, self.st.spaces, 0, self.st.lower, self.st.brackets))

    def x(self, x):
        return render(x, self.st)

    def tgt(self, t):
        return "@" + t[1] if t[0] == "lab" else self.x(t[1])

    def stmts(self, l):
        if isinstance(l, tuple):
            return ("" if self.r.random() < .6 else self.kw("GOTO") + " ") + "@" + l[1]
        return (self.st.sp() + ":" + self.st.sp()).join(self.stmt(s) for s in l)

    def stmt(self, s):
        k, sp, kw = s[0], self.st.sp, self.kw
        if k == "let":
            return self.lv(s[1]) + sp() + "=" + sp() + self.x(s[2])
        if k == "for":
            t = kw("FOR") + " " + s[1] + sp() + "=" + sp() + self.x(s[2]) + " " + kw("TO") + " " + self.x(s[3])
            return t + (" " + kw("STEP") + " " + self.x(s[4]) if s[4] is not None else "")
        if k == "next":
            return kw("NEXT") + (" " + s[1] if s[1] else "")
        if k == "if":
            t = kw("IF") + " " + self.x(s[1]) + " " + kw("THEN") + " " + self.stmts(s[2])
            return t + (" " + kw("ELSE") + " " + self.stmts(s[3]) if s[3] is not None else "")
        if k == "ifgoto":
            t = kw("IF") + " " + self.x(s[1]) + " " + kw("GOTO") + " @" + s[2]
            return t + (" " + kw("ELSE") + " " + self.stmts(s[3]) if s[3] is not None else "")
        if k in ("goto", "gosub"):
            return kw(k.upper()) + " " + self.tgt(s[1])
        if k == "on":
            return kw("ON") + " " + self.x(s[1]) + " " + kw(s[2]) + " " + (sp() + "," + sp()).join("@" + n for n in s[3])
        if k in ("return", "end", "stop", "clear"):
            return kw(k.upper())
        if k == "read":
            return kw("READ") + " " + (sp() + "," + sp()).join(self.lv(l) for l in s[1])
        if k == "restore":
            return kw("RESTORE") + " " + self.tgt(s[1])
        if k == "dim":
            out = []
            for n, xs in s[1]:
                out.append(self.lv(("arr", n, xs)))
            return kw("DIM") + " " + (sp() + "," + sp()).join(out)
        if k == "print":
            return (kw("PRINT") + " " if self.r.random() < .7 else "?" + sp()) + "".join(sp() + self.x(x) + sp() + p for x, p in zip(s[1], s[2]))
        if k == "swap":
            return kw("SWAP") + " " + self.lv(s[1]) + sp() + "," + sp() + self.lv(s[2])
        if k == "sort":
            return kw("RSORT" if s[1] else "SORT") + " " + (sp() + "," + sp()).join([self.x(s[2]), self.x(s[3])] + list(s[4]))
        if k == "data":
            out = []
            for d in s[1]:
                t = d[1].decode("latin-1") if isinstance(d[1], bytes) else d[1]
                if d[0] == "q" or (d[0] != "e" and t and self.r.random() < self.st.parens):
                    t = '"' + t + '"'
                out.append(sp() + t + sp())
            return kw("DATA") + " " + ",".join(out)
        raise AssertionError(s)

    def lines(self, prog):
        """source lines (without terminator); None if something can not be written in 100 characters"""
        out, cur = [], None
        for it in prog:
            if it[0] == "label":
                if cur is not None:
                    out.append(cur)
                cur = "@" + it[1]
                if self.r.random() >= self.join:
                    out.append(cur)
                    cur = None
                continue
            if it[0] == "rem":
                t = "'" + it[1]
                if cur is not None:
                    out.append(cur)
                out.append(t)
                cur = None
                continue
            t = self.stmt(it)
            if len(t) > 99:
                return None
            if cur is not None:
                j = cur + self.st.sp() + ":" + self.st.sp() + t
                if self.r.random() < self.join and len(j) <= 99:
                    cur = j
                else:
                    out.append(cur)
                    cur = t
            else:
                cur = t
            if it[0] in ("if", "ifgoto", "data"):
                out.append(cur)
                cur = None
        if cur is not None:
            out.append(cur)
        res = []
        for l in out:
            isdata = "DATA" in l.upper()
            if self.r.random() < self.st.spaces * .3 and len(l) < 96:
                l = "  " + l
            if self.r.random() < self.st.spaces * .2 and len(l) < 98 and not l.lstrip().startswith("@"):
                l = ":" + l
            if self.r.random() < self.comments and not isdata:
                c = self.r.choice([" 'note", "'x=1:y", " ' IF", " REM GOTO @X"])
                if len(l) + len(c) <= 99:
                    l += c
            res.append(l)
            if self.r.random() < self.blank:
                res.append(self.r.choice(["", " ", "'", "' A=1", "::", "REM B=2"]))
        return res

    def source(self, prog):
        l = self.lines(prog)
        return None if l is None else "".join(x + "\r" for x in l)


def plain(rng):
    return Layout(rng)


def fancy(rng):
    return Layout(rng, rng.choice([0, .1, .4]), rng.choice([0, .1, .3]), rng.choice([0, .2, .6]),
                  rng.choice([0, .3, .7, 1]), rng.choice([0, .1, .3]), rng.choice([0, .1, .2]), rng.random())


# ------------------------------------------------------------- comparing
def state_diff(mach, vars_obs):
    """compares a `vars` observation with the machine; returns text or None"""
    seen = set()
    for n, t, slot, v in vars_obs["v"]:
        arr, strv = isinstance(v, dict), is_str_type(t)
        name = n + ("$" if strv else "")
        if arr:
            seen.add((name, 1))
            m = mach.arrs.get(name)
            if m is None:
                # a failed access may or may not have created the default array
                if any(v["v"]) if not strv else any(uns(x) for x in v["v"]):
                    return "array %s exists, expected none" % name
                continue
            dims = [v["d1"]] + ([v["d2"]] if v["d2"] >= 0 else [])
            if dims != m[0]:
                return "array %s has size %s, expected %s" % (name, dims, m[0])
            for i, x in enumerate(v["v"]):
                x = uns(x) if strv else x
                w = W(m[1][i]) if strv else m[1][i]
                if x != w:
                    return "array %s cell %d is %s, expected %s" % (name, i, x, w)
        elif v is None and not strv:
            continue
        else:
            if v is None:      # array without storage
                continue
            seen.add((name, 0))
            x = uns(v) if strv else v
            w = mach.vars.get(name, default(name))
            w = W(w) if strv else w
            if x != w:
                return "%s is %s, expected %s" % (name, x, w)
    for name, v in mach.vars.items():
        if name != "@arr" and (name, 0) not in seen and v != default(name):
            return "variable %s missing, expected %r" % (name, v)
    for name in mach.arrs:
        if (name, 1) not in seen and any(x != default(name) for x in mach.arrs[name][1]):
            return "array %s missing" % name
    return None


def is_str_type(t):
    return bool(t & 2)


# ------------------------------------------------------------- helpers for generators
def num(n):
    return ("num", str(n), n << 12) if n >= 0 else ("un", "-", ("num", str(-n), -n << 12))


def var(n):
    return ("var", n)


def let(n, x):
    return ("let", ("var", n) if isinstance(n, str) else n, x)


def trace(k):
    """records k in T at position N"""
    return [("let", ("arr", "T", [var("N")]), num(k)), let("N", ("bin", "+", var("N"), num(1)))]
