#!/usr/bin/env python3
"""C18: sprite collision results against exact geometry of the swept collision rectangles."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

OOR = E.OUT_OF_RANGE


def rect(s):
    """collision rectangle in 4096ths and by how much its corners are uncertain"""
    x, y = s["pos"][:2]
    hx, hy, hw, hh, flag = s["hit"][2:7]
    k = s["scale"][0] if flag else 4096
    e = 0 if k == 4096 or not (hx * k % 4096 or hy * k % 4096 or (hx + hw) * k % 4096 or (hy + hh) * k % 4096) else 1
    return (x + hx * k // 4096, y + hy * k // 4096, x + (hx + hw) * k // 4096, y + (hy + hh) * k // 4096), e


def overlap(a, v, b, e, ve):
    """does rectangle a, moved along v, meet rectangle b (closed)?  None: too close to tell"""
    sa = [(x, y) for x in (a[0], a[2]) for y in (a[1], a[3])]
    sa += [(x + v[0], y + v[1]) for x, y in sa]
    sb = [(x, y) for x in (b[0], b[2]) for y in (b[1], b[3])]
    ox, oy = b[0], b[1]
    res = True
    for n, vert in (((1, 0), 0), ((0, 1), 0), ((-v[1], v[0]), 1)):
        if n == (0, 0):
            continue
        pa = [n[0] * (x - ox) + n[1] * (y - oy) for x, y in sa]
        pb = [n[0] * (x - ox) + n[1] * (y - oy) for x, y in sb]
        gap = max(min(pa) - max(pb), min(pb) - max(pa))       # > 0: apart
        slack = (abs(n[0]) + abs(n[1])) * (2 * e + ve)
        if vert and ve:
            slack += ve * max(abs(x - ox) + abs(y - oy) for x, y in sa + sb)
        if slack and abs(gap) <= slack:
            if res:
                res = None
        elif gap > 0:
            return False
    return res


def run():
    ck = Check("C18")
    ck.rule = "groups of sprites with all sizes, masks, offsets, scales and movements, mostly nearly touching; distinct = (relative geometry, result)"
    rng = ck.rng
    binp = build("asan")
    cases = []
    for k in range(ck.n(1200, 40000)):
        n = rng.choice([2, 2, 3, 4, 6, 9])
        ids = rng.sample(range(100), n)
        if rng.random() < .3:
            ids = rng.sample(range(32), n)
        page = rng.randrange(2)
        lines = ["SPPAGE %d" % page]
        grid = rng.choice([1, 8, 16])
        span = rng.choice([10, 40, 100, 300])
        base = rng.choice([0, 0, 0, 200, -300, 65000, -65000])
        vel = {}
        steps = rng.choice([0, 0, 1, 3])
        style = rng.random()
        for i in ids:
            sz = rng.choice([[], [rng.choice([8, 16, 32, 64]), rng.choice([8, 16, 32, 64])]])
            lines.append("SPSET %d,%d,0,0,0,0%s" % (i, rng.randrange(100), "".join(",%d" % x for x in sz)))
            c = lambda: base + rng.randrange(-span, span + 1) // grid * grid + rng.choice([0, 0, 0, 0, 1, -1])
            lines.append("SPOFS %d,%d,%d" % (i, c(), c()))
            if rng.random() < .6:
                q = [rng.choice([0, 0, -8, 8, rng.randint(-128, 127), 127, -128]), rng.choice([0, 0, -8, 4, rng.randint(-128, 127)]), rng.choice([0, 1, 8, 16, 255, rng.randint(0, 60)]), rng.choice([0, 1, 8, 16, rng.randint(0, 60), 255]), rng.randrange(2)]
                m = [] if rng.random() < .4 else [rng.choice([1, 2, 3, 4, 128, 255, 0, 1 << rng.randrange(8), rng.randrange(256)])]
                lines.append("SPCOL %d,%s" % (i, ",".join(map(str, q + m))))
            if rng.random() < .35 and i < 32:
                lines.append("SPSCALE %d,%d%s" % (i, rng.choice([0, 25, 50, 100, 150, 200, rng.randrange(201)]), rng.choice(["", "", ",%d" % rng.choice([2, 7])])))
            if style < .6 and rng.random() < .5:
                lines.append("SPCOLVEC %d,%d,%d" % (i, rng.choice([0, 5, -5, rng.randint(-128, 127), 127, -128]), rng.choice([0, 7, -3, rng.randint(-128, 127)])))
            if style > .3 and rng.random() < .5:
                t = rng.choice([1, 2, 4, 8, 10, rng.randint(1, 30)])
                tx, ty = c(), c()
                lines.append("SPOFS %d,%d,%d,%d" % (i, tx, ty, t))
                vel[i] = (tx, ty, t)
            if rng.random() < .06:
                lines.append("SPCLR %d" % i)
                vel.pop(i, None)
        if rng.random() < .5:      # the same sprites on the other screen must not matter
            lines.append("SPPAGE %d" % (1 - page))
            for i in rng.sample(range(100), 3) + ids[:2]:
                lines += ["SPSET %d,1,0,0,0,0,64,64" % i, "SPOFS %d,%d,%d" % (i, base, base)]
            lines.append("SPPAGE %d" % page)
        q, qs = [], []
        pairs = [(a, b) for a in ids for b in ids if a != b]
        rng.shuffle(pairs)
        for a, b in pairs[:12]:
            q.append(("sp", a, b))
            q.append(("sp", b, a))
        for a in rng.sample(ids, min(3, n)):
            q.append(("hit", a, None))
            q.append(("hit", a, rng.choice(ids + [0, 99, rng.randrange(100)])))
        un = rng.randrange(100)
        q.append(("hit", un, None))
        q.append(("sp", un, ids[0]) if un != ids[0] else ("hit", un, 0))
        rng.shuffle(q)
        q = q[:40]
        for j, (t, a, b) in enumerate(q):
            if t == "sp":
                qs.append("H[%d]=SPHITSP(%d,%d):N[%d]=SPHITNO" % (j, a, b, j))
            else:
                qs.append("H[%d]=SPHIT(%s):N[%d]=SPHITNO" % (j, a if b is None else "%d,%d" % (a, b), j))
        acts = ["sys", direct("\r".join(["DIM H[40]", "DIM N[40]"] + lines) + "\r"), "spr %d" % page] + (["spstep %d" % steps] if steps else []) + ["spr %d" % page]
        acts += [direct("\r".join(qs) + "\r"), "arr H", "arr N"]
        bad = None
        if rng.random() < .15:
            bad = rng.choice(["SPHIT(100)", "SPHIT(-1)", "SPHITSP(100,1)", "SPHITSP(1,100)", "SPHITSP(-1,0)", "SPHIT(0,100)", "SPHIT(0,-1)"])
            acts.append(direct("R=%s\r" % bad))
        cases.append(Case("h%d" % k, acts, (lines, vel, q, bad, steps)))
    res = run_cases(binp, cases)
    for c in cases:
        lines, vel, q, bad, steps = c.meta
        r = res[c.id]
        if ck.crash(r, c):
            continue
        runs = r.all("run")
        text = "; ".join(lines)[-1500:]
        if runs[0]["err"] or runs[1]["err"]:
            ck.violation("error", "error %s %s\n%s" % (E.name(runs[0]["err"]), E.name(runs[1]["err"]), text), case_text(c))
            continue
        s0, s1 = [{int(x): y for x, y in o["v"].items()} for o in r.all("spr")]
        # velocity of a pair: SPCOLVEC, otherwise the movement per frame
        v, ve = {}, {}
        for i, s in s1.items():
            v[i], ve[i] = tuple(s["hit"][:2]), 0
            if v[i] == (0, 0) and i in vel:
                tx, ty, t = vel[i]
                if t > steps:
                    # pos in s0 is where the movement started
                    d = (tx * 4096 - s0[i]["pos"][0], ty * 4096 - s0[i]["pos"][1])
                    v[i] = tuple(int(abs(z) // t * (1 if z >= 0 else -1)) for z in d)
                    ve[i] = int(any(z % t for z in d))
        no = 0

        def hit(a, b):
            if a not in s1 or b not in s1 or not s1[a]["hit"][7] & s1[b]["hit"][7]:
                return False
            (ra, ea), (rb, eb) = rect(s1[a]), rect(s1[b])
            rel = (v[a][0] - v[b][0], v[a][1] - v[b][1])
            return overlap(ra, rel, rb, ea + eb, ve[a] + ve[b])
        H, N = [x >> 12 for x in r.get("arr", 0)["v"]], [x >> 12 for x in r.get("arr", 1)["v"]]
        for j, (t, a, b) in enumerate(q):
            if t == "sp":
                w, wno = hit(a, b), no
            else:
                w, wno = False, no
                for i in range(b or 0, 100):
                    if i == a:
                        continue
                    h = hit(a, i)
                    if h is None:
                        w = None
                        break
                    if h:
                        w, wno = True, i
                        break
            if w is None:
                ck.count("too_close_to_tell")
                no = N[j]
                continue
            ck.case((t, len(s1), str(s1.get(a)), str(s1.get(b)), w))
            ck.count("hits" if w else "misses")
            if H[j] != int(w):
                ck.violation("hit" if t == "sp" else "sphit", "%s(%s,%s) is %d instead of %d\n%s: %s velocity %s\n%s: %s velocity %s\nafter %s" % (t, a, b, H[j], w, a, s1.get(a), v.get(a), b, s1.get(b), v.get(b), text), case_text(c))
                break
            if N[j] != wno and t != "sp":
                ck.violation("sphitno", "SPHITNO after SPHIT(%s,%s) is %d instead of %d\n%s" % (a, b, N[j], wno, text), case_text(c))
                break
            no = N[j] if t == "sp" else wno
            ck.sample("%s(%s,%s)=%d for %s and %s" % (t, a, b, w, s1.get(a, {}).get("hit"), s1.get(b, {}).get("hit")))
        if bad:
            ck.count("invalid_arguments")
            if runs[2]["err"] != OOR:
                ck.violation("range", "%s: error %s" % (bad, E.name(runs[2]["err"])), case_text(c))
    return ck.finish(min_evals=5000)


if __name__ == "__main__":
    main(run, "C18")
