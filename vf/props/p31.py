"""MIME types: generated mime.types files, names and concurrent first uses (harness/stress.c, scenario mime)."""
import os
from .. import stresslib

MIN = {"html": "text/html", "htm": "text/html", "js": "application/javascript", "mjs": "application/javascript", "css": "text/css",
       "png": "image/png", "jpg": "image/jpeg"}
AL = "abcdefghijklmnopqrstuvwxyz0123456789-+_"


def word(r, lo, hi):
    return "".join(r.choice(AL) for _ in range(r.choice([lo, r.randint(lo, hi), hi])))


def table(r):
    lines, t = [], {}
    exts = set()
    for _ in range(r.choice([0, 3, 40, 300])):
        mt = "%s/%s" % (word(r, 3, 12), r.choice([word(r, 1, 10), word(r, 60, 200), "vnd." + word(r, 5, 60)]))
        row = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 12, 200 if r.random() < .05 else 1])):
            e = word(r, 1, r.choice([3, 5, 20]))
            if e not in exts and not e.startswith("own"):
                exts.add(e)
                row.append(e)
        for e in row:
            t[e] = mt
        sep = r.choice(["\t", "\t\t\t", " ", "  \t "])
        line = mt + "".join((sep if i == 0 else r.choice([" ", "\t", "  "])) + e for i, e in enumerate(row))
        line += r.choice(["", "", "", " ", "\t", "  # about it", "\t#x"])
        lines.append(line + r.choice(["\n"] * 9 + ["\r\n"]))
        x = r.random()
        if x < .1:
            lines.append("\n")
        elif x < .2:
            lines.append(r.choice(["# comment zzz\n", "#\n", "  # text/none none\n", "#%s\n" % ("c " * r.randint(1, 2000))]))
    if lines and r.random() < .4:
        lines[-1] = lines[-1].rstrip("\r\n")
    return "".join(lines), t


def names(r, t):
    q = []
    pool = sorted(t) + ["html", "jpg", "none", "zzz"]
    for _ in range(250):
        e = r.choice(pool)
        q.append(r.choice([
            "f." + e, "/a/b." + e, "a.b.c." + e, "." + e, e, "f." + e + "x", "f.x" + e, "dir.%s/file.%s" % (r.choice(pool), e),
            "f." + e.upper() if e.upper() != e else "f." + e, "noext" + word(r, 1, 8), "f.", ".", word(r, 1, 300) + "." + e, "a b." + e, "f." + e + "."]))
    return q


def expect(t, n):
    return t.get(n.rsplit(".", 1)[-1], "text/plain")


def run(ctx):
    ctx.rule = ("generated mime.types files (row shapes, separators, comments, long rows, missing file) given to the library in place of "
                "/etc/mime.types; names looked up by several threads whose first use is concurrent, before and after the table is read again and "
                "while other extensions are updated and removed; compared with an independent parse; ASan+UBSan and TSan builds; "
                "distinct = (name, type) pairs")
    jobs, want = [], {}
    for k in range(ctx.n(40, 400)):
        r = ctx.rng
        text, t = table(r)
        q = names(r, t)
        tp, qp = os.path.join(ctx.scratch, "t%d" % k), os.path.join(ctx.scratch, "q%d" % k)
        if k % 10 == 9:
            t, tp = MIN, "-"
        else:
            open(tp, "w", newline="").write(text)
        open(qp, "w").write("".join(x + "\n" for x in q))
        want[qp] = (q, t, text)
        jobs.append((("asan", "tsan")[k % 2], dict(scenario="mime", types=tp, queries=qp, threads=(2, 6, 10)[k % 3], seed=r.randrange(1 << 30), delay=(0, 30)[k // 2 % 2])))

    def onout(kv, out):
        q, t, text = want[kv["queries"]]
        got = [l[4:].split("\t") for l in out.splitlines() if l.startswith("RES ")]
        for n, (gn, gt) in zip(q, got):
            ctx.count("lookups_checked")
            e = expect(t, n)
            ctx.distinct.add((n, e))
            if e != "text/plain":
                ctx.count("lookups_typed")
            if (gn, gt) != (n, e):
                ctx.violation("mime:type", "%r is %r, expected %r" % (n, gt, e), "name %r\nmime.types:\n%s" % (n, text if kv["types"] != "-" else "(none)"))
    res = stresslib.run_all(ctx, jobs, timeout=120, workers=6, onout=onout)
    ctx.extra["concurrent_lookups"] = sum(st.get("lookups", 0) for _, _, st in res)
    ctx.extra["table_reads"] = sum(st.get("reads", 0) for _, _, st in res)
    ctx.sample({"names": want[jobs[0][1]["queries"]][0][:8]})
    ctx.require(ctx.extra.get("lookups_typed", 0) > 20 * len(jobs), "too few known extensions looked up")
