#!/usr/bin/env python3
"""C31: mathematical functions against double precision / exact integer references over the whole number range."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

FULL = 1 << 31
IFC, OVF = E.ILLEGAL_FUNCTION_CALL, E.OVERFLOW


def near(v, exact=None):
    """the raw results that are v (in 1/4096) to within the resolution"""
    if exact is not None:
        return {exact}
    d = 1e-6 + abs(v) * 1e-12
    return set(range(math.floor(v - d), math.ceil(v + d) + 1))


def fits(v, exact=None):
    """allowed outcomes of a value that may be out of range: (set of values, set of errors)"""
    if exact is None and (v >= FULL + 1 or v < -FULL - 1):
        return set(), {OVF, IFC}
    vals = near(v, exact)
    out = {x for x in vals if not -FULL <= x < FULL}
    return vals - out, ({OVF, IFC} if out else set())


def r_sin(a):
    return (near(4096 * math.sin(a / 4096), 0 if a == 0 else None), set())


def r_cos(a):
    return (near(4096 * math.cos(a / 4096), 4096 if a == 0 else None), set())


def r_tan(a):
    return fits(4096 * math.tan(a / 4096), 0 if a == 0 else None)


def r_atan(a):
    return (near(4096 * math.atan(a / 4096), 0 if a == 0 else None), set())


def r_sqr(a):
    if a < 0:
        return set(), {IFC}
    r = math.isqrt(a * 4096)  # sqrt(a/4096)*4096
    return ({r} if r * r == a * 4096 else {r, r + 1}), set()


def r_exp(a):
    return fits(4096 * math.exp(a / 4096) if a / 4096 < 100 else 1e30, 4096 if a == 0 else None)


def r_log(a):
    if a <= 0:
        return set(), {IFC}
    return near(4096 * math.log(a / 4096), 0 if a == 4096 else None), set()


def frac(num, den):
    q, m = divmod(num, den)
    return {q} if m == 0 else {q, q + 1}


def r_rad(a):  # with PI() for pi
    return frac(a * 12867, 180 * 4096), set()


def r_deg(a):
    v = frac(a * 180 * 4096, 12867)
    out = {x for x in v if not -FULL <= x < FULL}
    return v - out, ({OVF, IFC} if out else set())


def r_floor(a):
    return {a >> 12 << 12}, set()


def r_sgn(a):
    return {(a > 0) * 4096 - (a < 0) * 4096}, set()


def r_abs(a):
    return {abs(a)}, set()


def r_atan2(y, x):
    if x == 0 and y == 0:
        return None
    return near(4096 * math.atan2(y, x), 0 if y == 0 and x > 0 else None), set()


def r_pow(b, e):
    fb, fe = b / 4096, e / 4096
    if b == 0:
        if e == 0:
            return {4096}, set()
        return ({0}, set()) if e > 0 else (set(), {IFC, OVF})
    if b < 0:
        if abs(e) > 1 << 24:
            return None  # the exponent is not exact in single precision
        if e % 4096:
            return set(), {IFC}
    l = fe * math.log(abs(fb))
    if l > 60:
        return set(), {IFC, OVF}
    v = 4096 * math.exp(l) * (-1 if b < 0 and (e >> 12) & 1 else 1)
    tol = abs(v) * (2.0 ** -22 + (abs(fe) + abs(l)) * 2.0 ** -23) + 1e-6
    if b % 4096 == 0 and e % 4096 == 0 and 0 <= e >> 12 < 40 and abs((b >> 12) ** (e >> 12)) < 1 << 19:
        k = (b >> 12) ** (e >> 12) * 4096
        return {k} if abs(k) < 1 << 35 and abs(k) >> 12 < 1 << 24 else {k}, set()
    lo, hi = v - tol, v + tol
    if lo >= FULL or hi < -FULL:
        return set(), {IFC, OVF}
    ok = range(max(math.floor(lo), -FULL), min(math.ceil(hi), FULL - 1) + 1)
    return ok, ({OVF, IFC} if hi >= FULL or lo <= -FULL else set())


ONE = {"SIN": r_sin, "COS": r_cos, "TAN": r_tan, "ATAN": r_atan, "SQR": r_sqr, "EXP": r_exp, "LOG": r_log, "RAD": r_rad, "DEG": r_deg,
       "FLOOR": r_floor, "SGN": r_sgn, "ABS": r_abs}
TWO = {"POW": r_pow, "ATAN": r_atan2}


def args1(rng, f):
    r = rng.random()
    if r < .2:
        return rng.choice(INTERESTING)
    if r < .4:
        return rng.randint(-20 * 4096, 20 * 4096)
    if r < .5:
        return rng.randint(-300, 300) * 4096
    if r < .6:
        return rng.randint(0, 723) ** 2 * 4096 + rng.choice([0, 0, 1, -1])
    if r < .7:  # near multiples of pi/2 and the limits of EXP
        return wrap32(round(rng.choice([rng.randint(-300000, 300000) * math.pi / 2, 13.1697, -8.3, math.log(524288)]) * 4096) + rng.randint(-2, 2))
    if r < .85:
        return rng.choice([1, -1]) * (1 << rng.randint(0, 30)) + rng.randint(-1, 1)
    return rng.randint(-FULL, FULL - 1)


def args2(rng, f):
    if f == "ATAN":
        return args1(rng, f), args1(rng, f)
    r = rng.random()
    if r < .35:
        return rng.randint(-20, 20) * 4096, rng.randint(-20, 20) * 4096
    if r < .6:
        return rng.randint(0, 20 * 4096), rng.randint(-8 * 4096, 8 * 4096)
    if r < .7:
        return rng.randint(0, 700) * 4096, rng.choice([2048, 1024, 8192, 4096, -4096, -2048, 1365])
    if r < .8:
        return rng.choice([1, -1]) * rng.randint(4000, 4200), rng.randint(-10000, 10000) * 4096
    return args1(rng, f), args1(rng, f)


def run():
    ck = Check("C31")
    ck.rule = "function x arguments: boundary values, dense small ranges, neighbourhoods of poles and limits and random values over the whole range; distinct = (function, arguments)"
    rng = ck.rng
    binp = build("asan")
    cases = []
    per = 300
    for f in ONE:
        dense = list(range(-700, 700)) if f != "POW" else []
        vals = dense + INTERESTING + [args1(rng, f) for _ in range(ck.n(5000, 200000))]
        rng.shuffle(vals)
        for k in range(0, len(vals), per):
            part = vals[k:k + per]
            kind = rng.random()
            src = "R=%s(A)\r" % f if kind < .6 else "Q(1)=A:R=0+%s( Q(1) )*1\r" % f if kind < .8 else "R=%s(A+0)-0\r" % f.lower()
            cases.append(Case("%s%d" % (f, k), [tab(src, ["A", "R"], ["R"], [(a, 777) for a in part])], (f, part, 1)))
    for f in TWO:
        vals = [args2(rng, f) for _ in range(ck.n(12000, 200000))]
        for k in range(0, len(vals), per):
            part = vals[k:k + per]
            cases.append(Case("%s2_%d" % (f, k), [tab("R=%s(A,B)\r" % f, ["A", "B", "R"], ["R"], [(a, b, 777) for a, b in part])], (f, part, 2)))
    # RND: range, integrality and that every value of a small range comes up
    for k in range(ck.n(40, 400)):
        n = rng.choice([1, 2, 3, 5, 6, 10, 16, 100, 1000, 524287, rng.randint(1, 524287)])
        raw = n * 4096 + rng.choice([0, 0, 0, 1000, 4095])
        cases.append(Case("rnd%d" % k, [tab("R=RND(A)\r", ["A"], ["R"], [(min(raw, I32MAX),)] * 300)], ("RND", n, 0)))
    for k in range(ck.n(10, 100)):
        n = rng.choice([1, 2, 3, 5, 10, 16, 100, rng.randint(1, 524287)])
        cases.append(Case("rndn%d" % k, [tab("R=RND(A)\r", ["A"], ["R"], [(-n * 4096,)] * 300)], ("RND", -n, 0)))
    bad = ["%s(%s)" % (f, a) for f in list(ONE) + ["RND"] for a in ('"1"', "S$")] + ['POW("2",2)', 'POW(2,"2")', 'POW(2)', 'SIN()', 'PI(1)', 'SIN(1,2)', 'ATAN(1,2,3)', 'ATAN()', 'SQR(1,1)', 'POW(1,2,3)']
    for k, b in enumerate(bad):
        cases.append(Case("bad%d" % k, [prg("R=777\rR=%s\r" % b), "var R"], ("bad", b, 0)))
    cases.append(Case("pi", [prg("R=PI()\rQ=SIN(PI())\rS=COS(PI())\r"), "var R"], ("PI", 0, 0)))
    res = run_cases(binp, cases)
    for c in cases:
        f, part, ar = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        if f == "bad":
            ck.case(part)
            if r.get("run")["err"] == 0 or r.get("var")["v"] != 777 * 4096:
                ck.violation("bad:" + part, "%s gave err %s, value %s" % (part, r.get("run")["err"], r.get("var")["v"]), case_text(c))
            continue
        if f == "PI":
            ck.case("pi")
            if r.get("run")["err"] or r.get("var")["v"] not in near(math.pi * 4096):
                ck.violation("pi", "PI()=%s" % r.get("var")["v"], case_text(c))
            continue
        rows = r.get("tab")["rows"]
        if f == "RND":
            seen = set()
            for e, o in [(x[0], x[1]) for x in rows]:
                ck.case(("RND", part, o))
                if e or o % 4096 or not (0 <= o < part * 4096 if part > 0 else part * 4096 < o <= 0):
                    ck.violation("RND", "RND(%d) gave err %d value %s" % (part, e, o), case_text(c))
                    break
                seen.add(o)
            if (abs(part) <= 16 and len(seen) < abs(part)) or (part > 100 and len(seen) < 60):
                ck.violation("RND:few", "RND(%d) gave only %d different values in 300 calls" % (part, len(seen)), case_text(c))
            continue
        fn = (ONE if ar == 1 else TWO)[f]
        for a, x in zip(part, rows):
            e, o = x[0], x[1]
            t = (a,) if ar == 1 else a
            want = fn(*t)
            if f == "ABS" and a == -FULL:
                want = None  # no defined result
            if want is None:
                continue
            ck.case((f, ar, a))
            ck.count("%s%d_%s" % (f, ar, E.name(e).replace("ERR_", "") if e else "value"))
            vals, errs = want
            if (e and (e not in errs or o != 777)) or (not e and o not in vals):
                ck.violation("%s%d:%s" % (f, ar, "err" if e else "value"), "%s(%s) gave err %d, %s/4096; allowed %s/4096 or errors %s" % (f, ",".join(str(v / 4096) for v in t), e, o, vals if isinstance(vals, range) else sorted(vals), sorted(errs)),
                             case_text(Case("r", [tab("R=%s(%s)\r" % (f, "A" if ar == 1 else "A,B"), ["A", "B"], ["R"], [(t + (0,))[:2]])])))
    return ck.finish(min_evals=50000)


if __name__ == "__main__":
    main(run, "C31")
