"""Blocks and pointer lists hold exactly what was added to them."""
import hashlib
from .. import core, build, srvlib


def size(r):
    return r.choice([0, 1, 2, 3, 14, 15, 16, 17, 30, 31, 32, 33, 255, 256, 257, 1022, 1023, 1024, 1025, 1026, 2048, 4000, r.randrange(0, 5000)])


def run(ctx):
    b = build.harness("lib")
    r = ctx.rng
    ctx.rule = ("histories of up to 60 operations (add char/string/data/block including itself, rewind, clear, reserve) on up to 4 blocks, sizes around the growth "
                "steps; contents, size and terminator compared with a byte-string model after operations; non-trivial = distinct history that grew a block past its first allocation")
    cases, meta = [], {}
    for i in range(ctx.n(4000, 60000)):
        nb = r.randrange(1, 5)
        big = r.random() < 0.02           # into the region where blocks grow by steps
        m = [b""] * nb
        ops = ["bnew %d" % k for k in range(nb)]
        exp = []
        grew = False
        for _ in range(r.randrange(1, 60)):
            k = r.randrange(nb)
            o = r.random()
            if o < 0.25:
                c = r.randrange(256)
                n = r.choice([1, 1, 1, 15, 16, 17, 33])
                ops += ["bchar %d %d" % (k, c)] * n
                m[k] += bytes([c]) * n
            elif o < 0.4:
                n = size(r)
                t = bytes(r.randrange(1, 256) for _ in range(min(n, 50)))
                t = (t * (n // max(1, len(t)) + 1))[:n] if n else b""
                ops.append("bstr %d %s" % (k, t.hex() or "."))
                m[k] += t
            elif o < 0.6 and len(m[k]) < 2500000:
                n = size(r) if not big else r.choice([30000, 65535, 65536, 65537, 100000, 300000, 1048575, 1048577])
                t = r.randbytes(n) if n < 10000 else r.randbytes(4001) * (n // 4001) + b"z" * (n % 4001)
                ops.append("bdata %d %s" % (k, t.hex() or "."))
                m[k] += t
            elif 0.6 <= o < 0.7:
                j = r.randrange(nb)
                if len(m[k]) + len(m[j]) < (60000 if not big else 2500000):
                    ops.append("bblk %d %d" % (k, j))
                    m[k] += m[j]
            elif o < 0.8:
                n = r.choice([0, 1, 2, len(m[k]), len(m[k]) + 1, len(m[k]) // 2, max(0, len(m[k]) - 1), 16])
                ops.append("brew %d %d" % (k, n))
                m[k] = m[k][:max(0, len(m[k]) - n)]
            elif o < 0.83:
                ops.append("bclear %d" % k)
                m[k] = b""
            elif o < 0.88:
                ops.append("bmin %d %d" % (k, size(r)))
            else:
                ops.append("bsize %d" % k)
                exp.append(("bsize", str(len(m[k]))))
            if r.random() < (0.3 if not big else 0.05):
                ops.append("bget %d" % k)
                exp += [("bnul", "1"), ("bget", m[k].hex())]
            grew = grew or len(m[k]) > 16
        for k in range(nb):
            ops += ["bsize %d" % k, "bget %d" % k, "bfree %d" % k]
            exp += [("bsize", str(len(m[k]))), ("bnul", "1"), ("bget", m[k].hex())]
        cases.append((str(i), "\n".join(ops)))
        meta[str(i)] = (exp, grew)
    # pointer lists: newest first
    for i in range(ctx.n(600, 8000)):
        m = [[], []]
        ops, exp = [], []
        for _ in range(r.randrange(1, 40)):
            k = r.randrange(2)
            o = r.random()
            if o < 0.5:
                v = r.randrange(1, 20)
                ops.append("pladd %d %d" % (k, v))
                m[k].insert(0, v)
            elif o < 0.7:
                v = r.choice(m[k]) if m[k] and r.random() < 0.8 else r.randrange(1, 25)
                ops.append("plrm %d %d" % (k, v))
                if v in m[k]:
                    m[k].remove(v)
            elif o < 0.85:
                v = r.choice([1, 2, 3, 5, 30])
                ops.append("plfilter %d %d" % (k, v))
                m[k] = [x for x in m[k] if x % v]
            elif o < 0.88:
                ops.append("plfree %d" % k)
                m[k] = []
            if r.random() < 0.5:
                ops.append("pldump %d" % k)
                exp.append(("pl", " ".join(str(x) for x in [len(m[k])] + m[k])))
        for k in (0, 1):
            ops += ["pldump %d" % k, "plfree %d" % k]
            exp.append(("pl", " ".join(str(x) for x in [len(m[k])] + m[k])))
        cases.append(("l%d" % i, "\n".join(ops)))
        meta["l%d" % i] = (exp, len(ops) > 6)
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases)
    for cid, lines in live.items():
        exp, grew = meta[cid]
        ctx.evals += 1
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        got = [tuple((l.split(" ", 1) + [""])[:2]) for l in lines if l.split(" ")[0] in ("bsize", "bnul", "bget", "pl")]
        ctx.count("observations", len(got))
        if got != exp:
            k = next((x for x in range(min(len(got), len(exp))) if got[x] != exp[x]), -1)
            ctx.violation("content:%s" % (exp[k][0]), "observation %d: %s, model says %s" % (k, str(got[k])[:200], str(exp[k])[:200]), rep)
        if "RES allocs=0" not in lines:
            ctx.violation("leak", "the memory is not released: %s" % lines[-2:], rep)
        if grew:
            ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
    ctx.sample(texts["0"][:300])
    ctx.require(ctx.extra.get("observations", 0) > 5000, "too few observations")
