"""How request bytes are cut into segments never changes what the server makes of them."""
import hashlib
from .. import core, srvlib, httpgen as g
from . import p01


def outcome(lines):
    """first outcome of the stream: the request handed to the handler, a refusal, or still waiting"""
    o = srvlib.Obs(lines)
    if o.reqs:
        q = o.reqs[0]
        first = [k for k in lines if k.startswith("d.")]
        # only the first request
        res, n = [], 0
        for l in lines:
            if l.startswith("REQ "):
                n += 1
            if n == 1 and l.startswith("d."):
                res.append(l)
        return ("READY",) + tuple(res)
    for s in o.st:
        if s.startswith("-"):
            return ("REFUSED", s.split()[0])
    return ("WAITING",)


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    ctx.rule = ("a stream (valid request, valid request mutated, token soup) delivered in one piece is the reference; the same bytes in "
                "other segmentations (byte by byte, random cuts, cuts around CR/LF/delimiters, fixed sizes, and for short streams every "
                "two-segment cut) must reach the same first outcome with an identical dump; non-trivial = a segmentation with >=2 segments")
    n = ctx.n(2500, 14000)
    cases, ref, meta = [], {}, {}
    outs = {}
    for i in range(n):
        x = r.random()
        if x < 0.45:
            s = g.gen_request(r, huge=3000 if r.random() < 0.15 else 0, nheaders=r.choice([0, 1, 3])).wire()
        elif x < 0.9:
            s = g.mutate(r, g.gen_request(r, nheaders=r.choice([0, 1, 3])).wire())
        else:
            s = p01.stream(r)
        sets = []
        if r.random() < 0.25:
            sets = ["max_post %d" % r.choice([10, 100, 1000]), "max_file %d" % r.choice([1, 100, 1000])]
        segs = [[s]]
        if len(s) < 2:
            continue
        for st in ("bytes", "few", "crlf", "delim", "fixed", "few"):
            if st == "bytes" and len(s) > 6000:
                st = "two"
            segs.append(g.split(r, s, st))
        if len(s) < 420 and r.random() < 0.25:
            segs += [[s[:k], s[k:]] for k in range(1, len(s))]
        for j, ch in enumerate(segs):
            cid = "%d.%d" % (i, j)
            cases.append((cid, srvlib.case(ch, ("dump",), sets)))
            meta[cid] = (i, j, len(ch))
    res = core.run_cases(ctx, b, cases, timeout=300)
    texts = dict(cases)
    live = srvlib.die_report(ctx, res, cases)
    for cid, lines in live.items():
        i, j, k = meta[cid]
        outs[(i, j)] = outcome(lines)
    for (i, j), oc in outs.items():
        if j == 0:
            ctx.count("reference_" + oc[0].lower())
            continue
        if (i, 0) not in outs:
            continue
        ctx.evals += 1
        if meta["%d.%d" % (i, j)][2] > 1:
            ctx.distinct.add(hashlib.md5(texts["%d.%d" % (i, j)].encode()).digest())
        if oc != outs[(i, 0)]:
            a = outs[(i, 0)]
            diff = [(x, y) for x, y in zip(a, oc) if x != y][:2] or (len(a), len(oc))
            ctx.violation("outcome:%s->%s" % (a[0], oc[0]), "segmented delivery differs: whole=%s segmented=%s first difference %r" %
                          (a[:2], oc[:2], diff),
                          "CASE whole\n%s\nEND\nCASE segmented\n%s\nEND\n" % (texts["%d.0" % i], texts["%d.%d" % (i, j)]))
    ctx.sample(texts[cases[1][0]][:400])
    ctx.require(ctx.extra.get("reference_ready", 0) > n / 4 and ctx.extra.get("reference_refused", 0) > n / 40, "too few outcomes")
    ctx.assumptions = ["one request at a time per connection (pipelined bytes after a request are outside the statement)"]
