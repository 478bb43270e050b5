#!/usr/bin/env python3
"""C22: typing, frame and program threads run concurrently under ThreadSanitizer and with delays injected around every lock; the accepted keys are compared with the keys the program got, rejections with the fill level, clock and button values with what the frame thread set. A queue model judges long single-threaded histories around the buffer size."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from ref import WIDE

ABC = [0xff10 + i for i in range(10)] + [0xff21 + i for i in range(26)] + [0xff41 + i for i in range(26)]
MASK = [0x001, 0x7fe, 0x000, 0x2aa, 0x555, 0x7ff]
PAIRS = [(MASK[i - 1], MASK[i]) for i in range(6)] + [(0, 0), (0, MASK[0])]


def one(job):
    binp, args, flavor = job
    env = dict(ENV)
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4"
    env["UBSAN_OPTIONS"] = "exitcode=0"
    for attempt in range(2):
        d = os.path.join(scratch(), "c%d" % next(_n))
        os.makedirs(d)
        p = subprocess.run([binp] + [str(a) for a in args], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        shutil.rmtree(d, ignore_errors=True)
        if p.returncode != -14:
            break
    try:
        o = json.loads(p.stdout) if p.returncode == 0 else None
    except ValueError:
        o = None
    return job, p.returncode, o, p.stderr.decode(errors="replace")


import itertools
_n = itertools.count()


def judge(ck, mode, args, o):
    """yields (key, text)"""
    if o["races"]:
        yield "race", "%d data races reported by ThreadSanitizer" % o["races"]
    if o["err"]:
        yield "error", "the program stopped with %s" % E.name(o["err"])
    if o["ticks"] != o["time"]:
        yield "clock", "%d frames were counted, the clock says %d" % (o["ticks"], o["time"])
    if mode in ("keys", "native"):
        a, b = units(o["in"]), units(o["out"])
        ck.count("keys_accepted", len(a))
        ck.count("keys_rejected", o["rejected"])
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            yield "order", "%d keys accepted, %d returned; first difference at key %d: typed %s, returned %s" % (
                len(a), len(b), i, [hex(x) for x in a[i:i + 6]], [hex(x) for x in b[i:i + 6]])
        if o["rest"]:
            yield "rest", "keys left in the buffer after the last one typed was returned: " + o["rest"]
        if o["bad_reject"]:
            yield "reject", "%d keys rejected although the buffer was not full" % o["bad_reject"]
        if o["bad_accept"]:
            yield "accept", "%d keys accepted although the buffer was full" % o["bad_accept"]
    elif mode == "line":
        ck.count("lines_typed", len(o["lines"]))
        for i, (x, y) in enumerate(zip(o["lines"], o["got"])):
            if x != y:
                yield "line", "line %d: typed %s, LINPUT returned %s" % (i, x, y)
                break
    else:
        n = len(o["rows"]) // 10
        col = [o["rows"][j * n:(j + 1) * n] for j in range(10)]
        ck.count("polls", n)
        ck.distinct.update(hash(("poll", x)) for x in zip(*col[:5]))
        ok = [lambda v: v in MASK,
              lambda v: any(not (w & ~o_) & ~v and not v & ~w for o_, w in PAIRS),
              lambda v: v in [w & ~o_ for o_, w in PAIRS],
              lambda v: v in [o_ & ~w for o_, w in PAIRS],
              None,
              lambda v: v in range(0, 112, 7), lambda v: v in range(0, 176, 11), lambda v: v in range(5), lambda v: v in (0, 1), None]
        ok[4] = ok[1]
        names = ["BUTTON()", "BUTTON(1)", "BUTTON(2)", "BUTTON(3)", "BTRIG()", "TCHX", "TCHY", "TCHTIME", "TCHST"]
        for nm, c, f in zip(names, col, ok):
            for i, v in enumerate(c):
                if not f(v):
                    yield "torn-" + nm.rstrip("()"), "%s returned %d, which no frame set" % (nm, v)
                    break
        # MAINCNTL is the frame counter modulo 2^19; the program may be held up for any number of frames
        # between two looks, but all the steps together are no more than the frames there were
        back = [i for i in range(1, n) if col[9][i] < col[9][i - 1]]
        total = col[9][0] + sum((y - x) % (1 << 19) for x, y in zip(col[9], col[9][1:])) if n else 0
        if total > o["ticks"]:
            yield "clock", "MAINCNTL went from %d to %d (%d frames were counted)" % (col[9][back[0] - 1] if back else 0, col[9][back[0]] if back else col[9][-1], o["ticks"])


def queue(ck, binp):
    """single-threaded histories: set_inkey / INKEY$ against a queue of 256"""
    rng, cases = ck.rng, []
    for k in range(ck.n(60, 600)):
        acts, exp, q, n = ["sys"], [], [], 0
        for _ in range(rng.randint(10, 60)):
            if rng.random() < .5:
                m = rng.choice([1, 1, 2, 5, 100, 200, 255, 256, 257, 300, 256 - len(q), 257 - len(q)])
                keys = [ABC[(n + i) % 61] for i in range(m)]
                n += m
                for i in range(0, m, 300):
                    acts.append("key " + " ".join("%x" % x for x in keys[i:i + 300]))
                for x in keys:
                    exp.append(("put", len(q) < 256))
                    if len(q) < 256:
                        q.append(x)
            elif rng.random() < .5:
                m = rng.choice([1, 2, 3, 100, 255, 256, 257, len(q), len(q) + 1])
                for _ in range(max(1, m)):
                    acts.append("inkey")
                    exp.append(("get", q.pop(0) if q else 0))
            else:
                m = rng.choice([1, 3, 17, 60, len(q), len(q) + 1])
                acts.append(direct("N=%d:R$=\"\":S$=\"\"\rFOR I=1 TO N\rC$=INKEY$()\rIF I>200 THEN S$=S$+C$ ELSE R$=R$+C$\rNEXT\r" % m))
                acts += ["var R$", "var S$"]
                got = [q.pop(0) if q else None for _ in range(m)]
                exp.append(("str", [g for g in got[:200] if g], [g for g in got[200:] if g]))
        cases.append(Case("q%d" % k, acts, exp))
    # every character of the machine can be typed and comes back as itself; what has no character comes back empty
    for k in range(ck.n(8, 80)):
        keys = [WIDE[c] for c in range(1, 256)] * 2 + [rng.choice([0x4e00, 0x3042, 0xac00, 0x0100, 0xfffe]) for _ in range(6)]
        rng.shuffle(keys)
        acts, exp = ["sys"], []
        for j in range(0, len(keys), 100):
            part = keys[j:j + 100]
            acts.append("key " + " ".join("%x" % x for x in part))
            exp += [("put", True)] * len(part)
            acts += [prg("CLEAR:DIM R$[200]\rFOR I=0 TO %d\r%s\rNEXT\r" % (len(part) - 1, rng.choice(["R$[I]=INKEY$()", "R$[I]=\"\"+INKEY$()", "C$=INKEY$():R$[I]=C$:C$=\"x\""]))), "arr R$"]
            exp.append(("all", part))
        cases.append(Case("w%d" % k, acts, exp))
    res = run_cases(binp, cases, cpu=60)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        it = iter(o for o in r.obs if o["t"] in ("key", "inkey", "var", "arr"))
        for n, e in enumerate(c.meta):
            o = next(it, None)
            if o is None:
                ck.violation("queue", "observation %d is missing" % n, case_text(c)[:60000])
                break
            ck.case((e[0], n, str(e[1])))
            if e[0] == "put":
                bad = bool(o["ok"]) != e[1] and "key %s although the buffer %s full" % (("accepted", "was") if o["ok"] else ("rejected", "was not"))
            elif e[0] == "get":
                bad = o["v"] != e[1] and "returned %#x, expected %#x" % (o["v"], e[1])
            elif e[0] == "all":
                bad = None
                for x, v in zip(e[1], o["v"]):
                    ck.count("characters_typed")
                    if list(uns(v) or ()) != ([x] if x in WIDE else []):
                        bad = "key %#x returned %r" % (x, v)
                        break
            else:
                a, b = uns(o["v"]), uns(next(it)["v"])
                bad = (list(a or ()), list(b or ())) != (e[1], e[2]) and "INKEY$ returned %s%s, expected %s%s" % (a, b, e[1], e[2])
            ck.count("queue_" + e[0])
            if bad:
                ck.violation("queue-" + e[0], "operation %d: %s" % (n, bad), case_text(c)[:60000])
                break


def run():
    ck = Check("C22")
    ck.rule = "thread schedule (hash of the sequence of lock owners) x workload (INKEY$ program, direct reader, button/touch/clock polling program, LINPUT program) x delay and burst parameters; queue histories by operation and fill"
    rng = ck.rng
    with ThreadPoolExecutor(3) as ex:
        drv, tsan, plain = ex.map(lambda a: build(*a), [("asan",), ("tsan", "conc.c"), ("plain", "conc.c")])
    jobs = []
    for k in range(ck.n(30, 400)):
        for flavor, binp in (("tsan", tsan), ("plain", plain)):
            s = rng.randrange(1 << 30)
            m = "keys native poll line".split()[k % 4]
            total = {"keys": rng.choice([500, 2000, 4000]), "native": rng.choice([1000, 8000]), "poll": rng.choice([500, 1500]), "line": 40}[m]
            jobs.append((binp, [m, s, total, rng.choice([1, 3, 40, 300, 600]), rng.randrange(2), rng.choice([0, 4, 16, 40]), rng.choice([0, 0, 1])], flavor))
    with ThreadPoolExecutor(max(2, JOBS // 2)) as ex:
        for (binp, args, flavor), rc, o, err in ex.map(one, jobs):
            text = "%s (%s build) mode=%s seed=%d total=%d burst=%d retry=%d delay=%d fast=%d\n" % tuple([os.path.basename(binp), flavor] + args)
            if rc == -14:
                ck.violation("hang", text + "the program did not get the last key typed, or a thread is blocked", text + err[:20000])
                continue
            if o is None:
                if rc in (97, 98):
                    raise HarnessError(text + err[-500:])
                ck.violation("exit", text + "ended with status %s\n%s" % (rc, err[:1500]), text + err[:20000])
                continue
            ck.case((args[0], o["hash"], o["switches"]))
            ck.count("runs_" + args[0])
            ck.count("lock_operations", o["locks"])
            ck.count("owner_changes", o["switches"])
            ck.cov["max_fill"] = max(ck.cov.get("max_fill", 0), min(256, o.get("maxfill", 0)))
            for key, t in judge(ck, args[0], args, o):
                ck.violation(key, text + t, text + t + "\n" + err[:20000])
            ck.sample("%s seed %d: %d lock operations, %d owner changes" % (args[0], args[1], o["locks"], o["switches"]))
    queue(ck, drv)
    return ck.finish(min_evals=1000)


if __name__ == "__main__":
    main(run, "C22")
