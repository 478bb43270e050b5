"""Reference model of the language core: numbers, strings, expressions.
Written from the language rules, independent of the implementation."""
import math, struct
from vlib import E, I32MIN, I32MAX, wrap32

MAXSTR = 256


class PtcError(Exception):
    def __init__(self, code):
        Exception.__init__(self, code)
        self.code = code


class Skip(Exception):
    """the model does not define this case (kept out of the verdict)"""


# ------------------------------------------------------------- characters
_KANA = "。「」、・ヲァィゥェォャュョッーアイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワン゛゜"
WIDE = []
for _c in range(256):
    if _c < 0x21:
        w = _c
    elif _c < 0x80:
        w = {0x22: 0x201d, 0x27: 0x2019, 0x5c: 0xffe5}.get(_c, 0xff00 + _c - 0x20)
    elif 0xa1 <= _c < 0xe0:
        w = 0xff70 if _c == 0xb0 else ord(_KANA[_c - 0xa1])
    else:
        w = _c
    WIDE.append(w)


def W(s):
    """bytes -> tuple of display code units"""
    return tuple(WIDE[c] for c in s)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def fit(z):
    if not I32MIN <= z <= I32MAX:
        raise PtcError(E.OVERFLOW)
    return z


# ------------------------------------------------------------- numbers <-> text
def fmt_num(n):
    s = b"-" if n < 0 else b""
    a = abs(n)
    i, d = a >> 12, (((a & 4095) + 2) * 1000) >> 12
    if d == 1000:
        i, d = i + 1, 0
    s += b"%d" % i
    if d:
        s += (b".%03d" % d).rstrip(b"0")
    return s


_DIG = b"0123456789ABCDEF"


def parse_prefix(s, base=10, decimal=True):
    """longest numeric prefix; returns raw (unbounded int)"""
    neg, i, n = False, 0, 0
    if s[:1] == b"-":
        neg, i = True, 1
    while i < len(s) and s[i] in _DIG[:base]:
        n = n * base + _DIG.index(s[i])
        i += 1
    raw = n * 4096
    if decimal and i < len(s) and s[i] == 0x2e:
        i += 1
        f, m = 0, 1
        while i < len(s) and s[i] in _DIG[:base]:
            if m < 10 ** 12:
                f, m = f * base + _DIG.index(s[i]), m * base
            i += 1
        raw += 4096 * f // m
    return -raw if neg else raw


def val(s):
    if s[:1] == b"&":
        if s[1:2] == b"H":
            base = 16
        elif s[1:2] == b"B":
            base = 2
        else:
            raise PtcError(E.SYNTAX)
        v = parse_prefix(s[2:], base, False)
        if not 0 <= v <= 0xffffffff:
            raise PtcError(E.OVERFLOW)
        return wrap32(v)
    v = parse_prefix(s)
    if not I32MIN <= v <= I32MAX:
        raise PtcError(E.OVERFLOW)
    return v


# ------------------------------------------------------------- operators
def bnum(op, a, b):
    if op == "+":
        return fit(a + b)
    if op == "-":
        return fit(a - b)
    if op == "*":
        return fit(a * b >> 12)
    if op == "/":
        if not b:
            raise PtcError(E.DIVIDE_BY_ZERO)
        return fit(tdiv(a << 12, b))
    if op == "%":
        if not b:
            raise PtcError(E.DIVIDE_BY_ZERO)
        return a - tdiv(a, b) * b
    if op == "AND":
        return wrap32(((a >> 12) & (b >> 12)) << 12)
    if op == "OR":
        return wrap32(((a >> 12) | (b >> 12)) << 12)
    if op == "XOR":
        return wrap32(((a >> 12) ^ (b >> 12)) << 12)
    return 4096 * {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]


def bstr(op, a, b):
    if op == "+":
        return concat(a, b)
    a, b = W(a), W(b)
    return 4096 * {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]


def unum(op, a):
    if op == "-":
        return wrap32(-a)
    if op == "NOT":
        return wrap32(~(a >> 12) << 12)
    return 4096 * (a == 0)


def concat(a, b):
    if len(a) + len(b) > MAXSTR:
        raise PtcError(E.STRING_TOO_LONG)
    return a + b


def repeat(a, n):
    n = max(0, n >> 12)
    if len(a) * n > MAXSTR:
        raise PtcError(E.STRING_TOO_LONG)
    return a * n


# ------------------------------------------------------------- functions
def _rng(v, lo, hi=None):
    v >>= 12
    if v < lo or (hi is not None and v > hi):
        raise PtcError(E.OUT_OF_RANGE)
    return v


def f_left(s, n):
    n = _rng(n, 0)
    return s[:n]


def f_right(s, n):
    n = _rng(n, 0)
    return s[len(s) - min(n, len(s)):] if n else b""


def f_mid(s, st, n):
    st, n = _rng(st, 0), _rng(n, 0)
    return s[st:st + n]


def f_subst(s, st, n, r):
    st, n = _rng(st, 0, len(s)), n >> 12
    if n < 0 or n > len(s):
        n = len(s)
    out = s[:st] + r + s[st + n:]
    if len(out) > MAXSTR:
        raise PtcError(E.STRING_TOO_LONG)
    return out


def f_instr(s, sub, st=0):
    st >>= 12
    if st < 0:
        raise PtcError(E.OUT_OF_RANGE)
    if not sub:
        return 0
    return s.find(sub, st) << 12 if st <= len(s) else -4096


def f_hex(n, d=None):
    n >>= 12
    if d is None:
        return b"%X" % (n & 0xfffff)
    d = _rng(d, 1, 5)
    if n >= 16 ** d or n < -(16 ** d // 2):
        raise PtcError(E.ILLEGAL_FUNCTION_CALL)
    return b"%0*X" % (d, n & (16 ** d - 1))


def f_asc(s):
    if not s:
        raise PtcError(E.SYNTAX)
    return s[0] << 12


def f_chr(n):
    return bytes([_rng(n, 0, 255)])


def f_sqr(n):
    if n < 0:
        raise PtcError(E.ILLEGAL_FUNCTION_CALL)
    return math.isqrt(n << 12)


FN = {
    "LEN": (lambda s: len(s) << 12, "S", "N"),
    "LEFT$": (f_left, "SN", "S"),
    "RIGHT$": (f_right, "SN", "S"),
    "MID$": (f_mid, "SNN", "S"),
    "SUBST$": (f_subst, "SNNS", "S"),
    "INSTR": (f_instr, "SS", "N"),
    "INSTR3": (f_instr, "SSN", "N"),
    "ASC": (f_asc, "S", "N"),
    "CHR$": (f_chr, "N", "S"),
    "HEX$": (f_hex, "N", "S"),
    "HEX$2": (f_hex, "NN", "S"),
    "STR$": (fmt_num, "N", "S"),
    "VAL": (val, "S", "N"),
    "ABS": (lambda n: n if n == I32MIN else abs(n), "N", "N"),
    "SGN": (lambda n: ((n > 0) - (n < 0)) << 12, "N", "N"),
    "FLOOR": (lambda n: n >> 12 << 12, "N", "N"),
    "SQR": (f_sqr, "N", "N"),
    "PI": (lambda: 12867, "", "N"),
}


def fn_name(k):
    return k[:-1] if k in ("INSTR3", "HEX$2") else k


# ------------------------------------------------------------- expressions
PREC = {"AND": 2, "OR": 2, "XOR": 2, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5}
UPREC = 6


def evaluate(x, env):
    """env: dict for scalars; ('name', n) arrays handled by env['@arr'](name, idx)"""
    k = x[0]
    if k == "num":
        return x[2]
    if k == "str":
        return x[1]
    if k == "var":
        v = env.get(x[1])
        return v if v is not None else (b"" if x[1].endswith("$") else 0)
    if k == "arr":
        idx = [evaluate(i, env) for i in x[2]]
        return env["@arr"](x[1], idx)
    if k == "bin":
        a, b = evaluate(x[2], env), evaluate(x[3], env)
        if x[1] == "*" and isinstance(a, bytes):
            return repeat(a, b)
        return bstr(x[1], a, b) if isinstance(a, bytes) else bnum(x[1], a, b)
    if k == "un":
        return unum(x[1], evaluate(x[2], env))
    if k == "fn":
        return FN[x[1]][0](*[evaluate(a, env) for a in x[2]])
    raise AssertionError(x)


class Style:
    """how an expression is written; every choice is semantically neutral"""

    def __init__(self, rng, spaces=0.2, parens=0.15, lower=0.2, brackets=0.5):
        self.r, self.spaces, self.parens, self.lower, self.brackets = rng, spaces, parens, lower, brackets

    def sp(self):
        return " " * self.r.choice([1, 1, 2]) if self.r.random() < self.spaces else ""

    def kw(self, s):
        if self.r.random() < self.lower:
            return s.lower() if self.r.random() < .5 else "".join(c.lower() if self.r.random() < .5 else c for c in s)
        return s


CANON = None


def render(x, st, prec=0, right=False):
    """text with only the parentheses the documented precedence needs, plus optional redundant ones"""
    k = x[0]
    if k == "num":
        s, p = x[1], 9
    elif k == "str":
        s, p = '"' + x[1].decode("latin-1") + '"', 9
    elif k == "var":
        s, p = x[1], 9
    elif k == "arr":
        o, c = ("[", "]") if st.r.random() < st.brackets else ("(", ")")
        s = x[1] + o + ("," + st.sp()).join(st.sp() + render(i, st) + st.sp() for i in x[2]) + c
        p = 9
    elif k == "fn":
        s = st.kw(fn_name(x[1])) + "(" + ("," + st.sp()).join(st.sp() + render(a, st) + st.sp() for a in x[2]) + ")"
        p = 9
    elif k == "un":
        inner = render(x[2], st, UPREC)
        op = x[1]
        if op == "NOT":
            s = st.kw(op) + " " + st.sp() + inner
        else:
            s = op + st.sp() + inner
        p = UPREC
    else:
        op = x[1]
        p = PREC[op]
        a = render(x[2], st, p)
        b = render(x[3], st, p + 1, True)
        o = " " + st.kw(op) + " " if op.isalpha() else st.sp() + op + st.sp()
        s = a + o + b
    # a unary operator is always allowed as right operand
    need = p < prec and not (k == "un" and right)
    if need or (st.r.random() < st.parens):
        s = "(" + st.sp() + s + st.sp() + ")"
    return s


def lit(rng, small=True):
    r = rng.random()
    if r < .5:
        n = rng.randint(0, 12) if small or rng.random() < .5 else rng.randint(0, 524287)
        t = str(n)
        if rng.random() < .1:
            t = "0" * rng.randint(1, 3) + t
        return ("num", t, n << 12)
    if r < .75:
        i, d = rng.randint(0, 20), rng.randint(1, 6)
        f = "".join(rng.choice("0123456789") for _ in range(d))
        t = ("%d" % i if i or rng.random() < .5 else "") + "." + f
        return ("num", t, parse_prefix(t.encode()))
    if r < .88:
        n = rng.randint(0, 255) if small else rng.randint(0, 0xfffff)
        return ("num", rng.choice(["&H%X", "&H%04X"]) % n, wrap32(n << 12))
    n = rng.randint(0, 31)
    return ("num", "&B" + bin(n)[2:], n << 12)


def rnd_text(rng, n=None, alphabet=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8]) if n is None else n
    alphabet = alphabet or b"ABCabc01 ,:;'()[]!#$%&@+-*/<=>_\xb1\xb2\xe0\x80"
    return bytes(rng.choice(alphabet) for _ in range(n))


def gen_expr(rng, depth, typ="N", nvars=("A", "B", "C1", "LONG_NAME"), svars=("A$", "S$"), narr=(), sarr=(), fns=True):
    def g(d, t):
        return gen_expr(rng, d, t, nvars, svars, narr, sarr, fns)
    r = rng.random()
    if typ == "N":
        if depth <= 0 or r < .12:
            r = rng.random()
            if r < .45:
                return lit(rng)
            if r < .55 and narr:
                name, dims = rng.choice(list(narr))
                return ("arr", name, [("num", str(i), i << 12) for i in [rng.randrange(d) for d in dims]])
            return ("var", rng.choice(nvars))
        if r < .62:
            op = rng.choice(["+", "-", "*", "+", "-", "*", "/", "%", "AND", "OR", "XOR", "==", "!=", "<", ">", "<=", ">="])
            return ("bin", op, g(depth - 1, "N"), g(depth - 1, "N"))
        if r < .76:
            return ("un", rng.choice(["-", "-", "NOT", "!"]), g(depth - 1, "N"))
        if r < .84:
            return ("bin", rng.choice(["==", "!=", "<", ">", "<=", ">="]), g(depth - 1, "S"), g(depth - 1, "S"))
        if fns:
            f = rng.choice(["LEN", "INSTR", "INSTR3", "ABS", "SGN", "FLOOR", "ASC", "VAL", "PI", "SQR"])
            return ("fn", f, [g(depth - 1, t) for t in FN[f][1]])
        return g(depth - 1, "N")
    if depth <= 0 or r < .25:
        if rng.random() < .5:
            return ("str", rnd_text(rng))
        if sarr and rng.random() < .3:
            name, dims = rng.choice(list(sarr))
            return ("arr", name, [("num", str(i), i << 12) for i in [rng.randrange(d) for d in dims]])
        return ("var", rng.choice(svars))
    if r < .55:
        return ("bin", "+", g(depth - 1, "S"), g(depth - 1, "S"))
    if r < .65:
        return ("bin", "*", g(depth - 1, "S"), ("num", str(rng.randint(0, 5)), None) if False else lit_small(rng))
    if fns:
        f = rng.choice(["LEFT$", "RIGHT$", "MID$", "SUBST$", "CHR$", "STR$", "HEX$"])
        args = []
        for t in FN[f][1]:
            args.append(g(depth - 1, t) if t == "S" or rng.random() < .4 else lit_small(rng))
        return ("fn", f, args)
    return g(depth - 1, "S")


def lit_small(rng):
    n = rng.randint(0, 6)
    return ("num", str(n), n << 12)
