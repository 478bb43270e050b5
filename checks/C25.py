#!/usr/bin/env python3
"""C25: compressors and decompressor over every cache size in exactly sized buffers under ASan, judged by round trip and by an independent decoder; compressed files through LOAD."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import C20 as F


def compress(data, bits):
    """reference encoder: bit string as bytes"""
    cache, nxt, out = list(range(1 << bits)), 0, []
    for b in data:
        if b in cache:
            out.append("0" + (bin(cache.index(b))[2:].zfill(bits) if bits else ""))
        else:
            out.append("1" + bin(b)[2:].zfill(8))
            cache[nxt] = b
            nxt = (nxt + 1) % len(cache)
    s = "".join(out)
    s += "0" * (-len(s) % 8)
    return int("1" + s, 2).to_bytes(len(s) // 8 + 1, "big")[1:]


def decompress(src, size, bits):
    """reference decoder: bytes, None when the data does not contain them"""
    if bits == -1:
        return src[:size] if len(src) >= size else None
    if not 0 <= bits <= 7:
        return None
    cache, nxt, out, pos = list(range(1 << bits)), 0, bytearray(), 0
    s = bin(int.from_bytes(b"\1" + src, "big"))[3:]
    while len(out) < size:
        if pos >= len(s):
            return None
        n = 8 if s[pos] == "1" else bits
        if pos + 1 + n > len(s):
            return None
        v = int(s[pos + 1:pos + 1 + n] or "0", 2)
        if s[pos] == "1":
            out.append(v)
            cache[nxt] = v
            nxt = (nxt + 1) % len(cache)
        else:
            out.append(cache[v])
        pos += 1 + n
    return bytes(out)


def content(rng, n):
    k = rng.randrange(8)
    if k == 0:
        return rng.randbytes(n)
    if k == 1:
        return bytes([rng.choice([0, 255, rng.randrange(256)])]) * n
    if k == 2:
        a = rng.sample(range(256), rng.choice([2, 3, 4, 5, 8, 16, 17, 33, 64, 65, 128, 129]))
        return bytes(rng.choice(a) for _ in range(n))
    if k == 3:
        p = rng.randbytes(rng.randint(1, 140))
        return (p * (n // len(p) + 1))[:n]
    if k == 4:
        return bytes(i * rng.choice([1, 1, 7]) & 255 for i in range(n))
    if k == 5:
        out = bytearray()
        while len(out) < n:
            out += bytes([rng.randrange(256)]) * rng.choice([1, 2, 3, 10, 100])
        return bytes(out[:n])
    if k == 6:
        return bytes(rng.randrange(rng.choice([1, 2, 4, 16, 128])) for _ in range(n))
    half = rng.randint(0, n)
    return rng.randbytes(half) + bytes(n - half)


def run():
    ck = Check("C25")
    ck.rule = "content class x size (every small size, larger sizes) x cache size, both compressors; decoder on valid, truncated, altered and random data; distinct = (size, content digest) or (bits, size, data)"
    rng = ck.rng
    binp = build("asan")
    cases = []
    blocks = [content(rng, n) for n in range(0, 300) for _ in range(ck.n(4, 20))]
    blocks += [content(rng, rng.choice([512, 516, 1023, 1024, 1025, 2000, 4096, 8191, 8192, 8193, 20000, 49152, 65535, 65536, 65537])) for _ in range(ck.n(100, 1500))]
    rng.shuffle(blocks)
    for i in range(0, len(blocks), 20):
        cases.append(Case("c%d" % i, ["comp " + (b.hex() or "-") for b in blocks[i:i + 20]], ("comp", blocks[i:i + 20])))
    for k in range(ck.n(250, 4000)):
        ops = []
        for _ in range(20):
            n = rng.choice([0, 1, 2, 3, 7, 8, 9, 16, rng.randint(0, 60), rng.randint(0, 300)])
            bits = rng.choice([-1, 0, 1, 2, 3, 4, 5, 6, 7, rng.choice([-2, 8, 9, 100, 255, -128])])
            if bits in range(8) and rng.random() < .8:
                d = bytearray(compress(content(rng, n), bits))
                m = rng.random()
                if m < .3 and d:
                    d = d[:rng.choice([len(d) - 1, rng.randrange(len(d))])]
                elif m < .5 and d:
                    d[rng.randrange(len(d))] ^= 1 << rng.randrange(8)
                elif m < .6:
                    d += rng.randbytes(rng.randint(1, 4))
                if rng.random() < .1:
                    n = max(0, n + rng.choice([-1, 1, 8, 100]))
            else:
                d = rng.choice([rng.randbytes(rng.randint(0, n + 2)), b"\xff" * n, b"\0" * n, b""])
            ops.append((bytes(d), n, bits))
        cases.append(Case("d%d" % k, ["decomp %s %d %d" % (d.hex() or "-", n, b) for d, n, b in ops], ("decomp", ops)))
    for k in range(ck.n(60, 600)):
        acts, ops = ["sys", "fs", "resfp"], []
        for _ in range(4):
            rn = rng.choice(["MEM", "COL0U", "COL2L", "BGU1L", "SPU7", "SCU1U", "SPD3", "GRP0", "GRP3"])
            kd = F.slot(rn, {"BG": 0, "SP": 0, "GRP": 0})[0]
            raw = content(rng, F.SIZE[kd])
            if kd == "mem":
                raw = F.memtext(rng)
            bits = rng.choice([0, 1, 2, 3, 4, 5, 6, 7])
            d = compress(raw, bits)
            if len(d) > len(raw):
                raw = bytes(len(raw))
                d = compress(raw, bits)
            cut = rng.random() < .25
            body = d[:rng.choice([len(d) - 1, len(d) // 2])] if cut else d
            ops.append((rn, kd, raw, bits, cut))
            acts += ["wfile programs/Z.PTC " + (b"SBCC" + bytes([bits]) + struct.pack("<I", len(raw))[:3] + body).hex(), direct("LOAD \"%s:Z\"\rR=RESULT\r" % rn), "var R", "resfp", "prgmem"]
        cases.append(Case("l%d" % k, acts, ("load", ops)))
    res = run_cases(binp, cases, cpu=40)
    for c in cases:
        r = res[c.id]
        if ck.crash(r, c):
            continue
        what, items = c.meta
        if what == "comp":
            for b, o in zip(items, r.all("comp")):
                for want, (bits, size, same) in zip(list(range(-1, 8)) + ["optimal"], o["v"]):
                    ck.case((len(b), hash(b)))
                    ck.count("compressed" if size >= 0 else "left_raw")
                    if size >= 0 and not same or size > len(b):
                        ck.violation("roundtrip", "%d bytes, cache %s: %d compressed bytes do not decompress to the original\n%s" % (len(b), want, size, b[:200].hex()), case_text(c)[:100000])
                    if want == "optimal" and size < 0:
                        ck.violation("optimal", "%d bytes: the optimal compressor gives no result" % len(b), case_text(c)[:100000])
        elif what == "decomp":
            for (d, n, bits), o in zip(items, r.all("decomp")):
                ck.case((bits, n, d))
                w = decompress(d, n, bits)
                ck.count("decoded" if w is not None else "rejected")
                if (w is not None) != bool(o["ok"]):
                    ck.violation("accept" if o["ok"] else "reject", "%d bytes %s with cache bits %d to %d bytes: %s" % (len(d), d[:200].hex(), bits, n, "accepted although incomplete or invalid" if o["ok"] else "rejected although valid"), case_text(c))
                elif w is not None and o["v"] != w.hex():
                    ck.violation("decoded", "%s with cache bits %d: %s instead of %s" % (d[:200].hex(), bits, o["v"][:200], w.hex()[:200]), case_text(c))
        else:
            fps = r.all("resfp")
            for i, (rn, kd, raw, bits, cut) in enumerate(items):
                R = r.get("var", i)["v"] // 4096
                ck.case((rn, bits, hash(raw), cut))
                ck.count("loaded" if not cut else "cut")
                if R != (not cut):
                    ck.violation("load", "LOAD %s of %s compressed data (%d cache bits): RESULT is %d" % (rn, "truncated" if cut else "valid", bits, R), case_text(c)[:100000])
                elif not cut:
                    got = r.get("prgmem", i)["mem"] if kd == "mem" else str(fps[i + 1][kd][F.slot(rn, {"BG": 0, "SP": 0, "GRP": 0})[1]])
                    if got != (raw.hex() if kd == "mem" else F.fnv(raw)):
                        ck.violation("load", "LOAD %s of compressed data (%d cache bits): the data differs" % (rn, bits), case_text(c)[:100000])
    return ck.finish(min_evals=3000)


if __name__ == "__main__":
    main(run, "C25")
