#!/usr/bin/env python3
"""C13: SORT and RSORT order the chosen range, keep rows together and leave the rest alone."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mini import *

KINDS = ["random", "few", "sorted", "reversed", "equal", "extremes", "organ", "almost", "two_runs"]


def values(rng, n, string):
    k = rng.choice(KINDS)
    if string:
        alpha = rng.choice([b"AB", b"ABCabc012", bytes(range(0x20, 0x100)), bytes(c for c in range(256) if c), b"\xb1\xa1z~Z_"])
        def one():
            ln = rng.choice([0, 1, 1, 2, 3, 8, 60])
            return rnd_text(rng, ln, alpha)
        v = [one() for _ in range(n)]
        if k == "few":
            s = [one() for _ in range(3)]
            v = [rng.choice(s) for _ in range(n)]
        elif k == "equal":
            v = [v[0]] * n if n else v
        elif k == "almost":
            p = rnd_text(rng, 12, alpha)
            v = [p[:rng.randint(8, 12)] + rnd_text(rng, rng.randint(0, 2), alpha) for _ in range(n)]
        key = W
    else:
        v = [rnd_fixp(rng) for _ in range(n)]
        if k == "few":
            v = [rng.choice([-4096, 0, 4096, 1]) for _ in range(n)]
        elif k == "equal":
            v = [v[0]] * n if n else v
        elif k == "extremes":
            v = [rng.choice([I32MAX, I32MIN, 0, -1, 1, I32MAX - 1, I32MIN + 1]) for _ in range(n)]
        key = lambda x: x
    if k == "sorted":
        v.sort(key=key)
    elif k == "reversed":
        v.sort(key=key, reverse=True)
    elif k == "organ":
        v.sort(key=key)
        v = v[::2] + v[1::2][::-1]
    elif k == "almost" and not string:
        v.sort(key=key)
        for _ in range(2):
            if n > 1:
                i, j = rng.randrange(n), rng.randrange(n)
                v[i], v[j] = v[j], v[i]
    elif k == "two_runs":
        h = n // 2
        v = sorted(v[:h], key=key) + sorted(v[h:], key=key)
    return k, v


def run():
    ck = Check("C13")
    ck.rule = "a case counts as distinct by array kinds, sizes, range and content"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for i in range(ck.n(2200, 40000)):
        na = rng.choice([1, 1, 1, 2, 2, 3, 5, 12, 32])
        big = rng.random() < .08 and na < 6
        size = rng.choice([1, 2, 3, 4, 5, 7, 10, 17, 40]) if not big else rng.choice([100, 200, 400])
        arrs = []
        for a in range(na):
            st = rng.random() < .4
            n = size if rng.random() < .6 else max(1, size + rng.randint(-3, 5))
            kind, v = values(rng, n, st)
            if a and rng.random() < .7 and not st:
                v = [(j + 1) << 12 for j in range(n)]
                kind = "id"
            elif a and st and rng.random() < .7:
                v = [b"r%d" % j for j in range(n)]
                kind = "id"
            arrs.append(["A%d%s" % (a, "$" if st else ""), v, kind])
        m = min(len(a[1]) for a in arrs)
        k = rng.random()
        if k < .35:
            s, n = 0, m
        elif k < .8:
            s = rng.randrange(m)
            n = rng.randint(0, m - s)
        else:
            s, n = rng.choice([(0, m + 1), (m, 0), (m, 1), (-1, 2), (0, -1), (m - 1, 2), (0, 524287), (524287, 524287), (-524288, 3), (1, m), (m - 1, 1), (m - 1, 0), (0, 0)])
        if na > 1 and rng.random() < .6 and 0 <= s < m and 0 < n <= m - s:
            # distinct keys, so that the order of the rows is defined
            a = arrs[0]
            seen, out = set(), []
            for j, x in enumerate(a[1]):
                c = 0
                while x in seen:
                    x = (x[:50] + b"%d" % (j + c)) if isinstance(x, bytes) else wrap32(x + 4099 * (j + 1 + c))
                    c += 1
                seen.add(x)
                out.append(x)
            a[1] = out
        desc = rng.random() < .5
        fs, fn = ("%d" % s, "%d" % n)
        if rng.random() < .1 and s >= 0 and n >= 0:
            fs, fn = "%d.9" % s, "%d.5" % n
        if s < -524287:
            fs = "-524287-1"
        extra = ""
        if rng.random() < .04:
            extra = rng.choice([",A0" + ("$" if arrs[0][0].endswith("$") else ""), ",A1" + ("$" if na > 1 and arrs[1][0].endswith("$") else "") if na > 1 else ",A0" + ("$" if arrs[0][0].endswith("$") else ""), ",TWO"])
        acts = ["sys 256 3000 8192", direct("DIM TWO[3,3],OTHER[3]:OTHER[0]=9:OTHER[1]=7:X=5:X$=\"keep\"\r")]
        line = "DIM "
        for nm, v, _ in arrs:
            acts.append(direct("DIM %s[%d]\r" % (nm, len(v))))
        for nm, v, _ in arrs:
            if nm.endswith("$"):
                src = ["@L", 'FOR I=0 TO %d:READ %s[I]:NEXT' % (len(v) - 1, nm)]
                for x in v:
                    if b'"' in x or b"\r" in x or any(c < 0x20 for c in x):
                        src.append(None)
                    else:
                        src.append("DATA \"%s\"" % x.decode("latin-1"))
                # values with quotes or control characters are put together with CHR$
                fix = []
                for j, x in enumerate(v):
                    if src[2 + j] is None:
                        src[2 + j] = 'DATA ""'
                        fix.append((j, x))
                for j, x in fix:
                    parts = ["CHR$(%d)" % c for c in x]
                    src.insert(2, "%s[%d]=%s[%d]+X1$" % (nm, j, nm, j)) if False else None
                    for q in range(0, len(parts), 7):
                        src.append("%s[%d]=%s[%d]+%s" % (nm, j, nm, j, "+".join(parts[q:q + 7])))
                acts.append(prg("\r".join(src) + "\r"))
            else:
                pass
        nums = [(nm, v) for nm, v, _ in arrs if not nm.endswith("$")]
        for nm, v in nums:
            # exact values: integer part and 4096ths
            src = ['FOR I=0 TO %d:READ H,L:%s[I]=H+L/4096:NEXT' % (len(v) - 1, nm)]
            for x in v:
                src.append("DATA %d,%d" % (x >> 12, x & 4095))
            acts.append(prg("\r".join(src) + "\r"))
        acts.append(direct("%s %s,%s,%s\r" % ("RSORT" if desc else "SORT", fs, fn, ",".join(a[0] for a in arrs) + extra), 0, 5000))
        acts += ["vars", "pool"]
        cases.append(Case("s%d" % i, acts, (arrs, s, n, desc, extra)))
    res = run_cases(binp, cases)
    for c in cases:
        arrs, s, n, desc, extra = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        runs = r.all("run")
        if any(o["err"] for o in runs[:-1]):
            raise HarnessError("set-up of %s failed: %s" % (c.id, [o["err"] for o in runs]))
        o = runs[-1]
        m = min(len(a[1]) for a in arrs)
        if len(arrs) + (1 if extra else 0) > 32:
            err = None
        elif extra:
            err = E.SORT_2D if extra == ",TWO" else E.SORT_SAME_ARRAY
        elif not 0 <= s < m or not 0 <= n <= m - s:
            err = E.OUT_OF_RANGE
        else:
            err = 0
        text = "%s %d,%d,%s sizes %s" % ("RSORT" if desc else "SORT", s, n, ",".join(a[0] for a in arrs) + extra, [len(a[1]) for a in arrs])
        ck.case((text, arrs[0][2], tuple(arrs[0][1][:20])))
        ck.count("end_" + E.name(o["err"]).replace("ERR_", ""))
        ck.count("kind_" + arrs[0][2])
        if (o["err"] == 0) if err is None else (o["err"] != err and (not extra or o["err"] == 0)):
            ck.violation("error", "%s: expected %s, got %s" % (text, E.name(err), E.name(o["err"])), case_text(c))
            continue
        obs = {nm + ("$" if is_str_type(t) else ""): v for nm, t, sl, v in r.get("vars")["v"] if isinstance(v, dict)}
        sc = {nm + ("$" if is_str_type(t) else ""): v for nm, t, sl, v in r.get("vars")["v"] if not isinstance(v, dict)}
        if obs["OTHER"]["v"] != [9 << 12, 7 << 12, 0] or sc.get("X") != 5 << 12 or uns(sc.get("X$")) != W(b"keep") or any(obs["TWO"]["v"]):
            ck.violation("elsewhere", "%s changed something else" % text, case_text(c))
            continue
        before = [[W(x) for x in a[1]] if a[0].endswith("$") else list(a[1]) for a in arrs]
        after = [[uns(x) for x in obs[a[0]]["v"]] if a[0].endswith("$") else obs[a[0]]["v"] for a in arrs]
        lo, hi = (s, s + n) if o["err"] == 0 else (0, 0)
        bad = None
        for a, b, d in zip(arrs, before, after):
            if len(d) != len(b) or d[:lo] != b[:lo] or d[hi:] != b[hi:]:
                bad = "%s changed outside the range" % a[0]
        if not bad and hi > lo:
            k = after[0][lo:hi]
            if any((x < y) if desc else (x > y) for x, y in zip(k, k[1:])):
                bad = "not in order: %s" % k[:30]
            if sorted(zip(*[b[lo:hi] for b in before])) != sorted(zip(*[d[lo:hi] for d in after])):
                bad = "rows were torn apart or lost"
        if bad:
            ck.violation("sort", "%s: %s\nbefore %s\nafter %s" % (text, bad, str(before)[:600], str(after)[:600]), case_text(c))
            continue
        if r.get("pool")["bad"] and o["err"] == 0:
            ck.violation("strings", "%s: %s" % (text, r.get("pool")["why"]), case_text(c))
            continue
        ck.count("elements_sorted", hi - lo)
        ck.sample(text)
    return ck.finish(min_evals=1500)


if __name__ == "__main__":
    main(run, "C13")
