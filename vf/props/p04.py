"""Request bodies reach the handler complete and unchanged, or the request is refused."""
import hashlib
from .. import core, srvlib, httpgen as g
from . import reqcmp, p03

MIX = ("multipart,put,raw",)      # kinds of handlers also run concurrently (harness/mix.h)


def run(ctx):
    ctx.rule = ("grammar-generated form, multipart (contents full of near-boundaries and bare line ends), raw and PUT bodies in random "
                "segmentations, compared byte for byte with handler-visible fields and stored files; plus the same uploads with temporary "
                "files that cannot be created, fill up or write short: then the handler must see the complete file or not run")
    p03.drive(ctx, ["urlenc", "multipart", "multipart", "multipart", "raw", "put", "getbody"], ctx.n(8000, 50000), 20000)
    # storage faults
    b = srvlib.binary()
    r = ctx.rng
    cases, meta = [], {}
    for i in range(ctx.n(900, 8000)):
        q = g.gen_request(r, kind=r.choice(["multipart", "put"]), huge=6000 if r.random() < 0.3 else 0, nheaders=0)
        x = r.random()
        if x < 0.2:
            sets = ["fail_mkstemp"]
        elif x < 0.6:
            tot = len(q.body)
            sets = ["fw_budget %d" % r.randrange(0, tot + 2)]
        else:
            sets = ["fw_short %d" % r.choice([1, 2, 7, 100, 1000, 1400])]
        cases.append(("f%d" % i, srvlib.case(g.split(r, q.wire(), r.choice(["one", "two", "few", "fixed"])), ["dump"], sets)))
        meta["f%d" % i] = q
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases)
    for cid, lines in live.items():
        q = meta[cid]
        o = srvlib.Obs(lines)
        ctx.evals += 1
        if not o.reqs:
            ctx.count("fault_refused")
            ctx.distinct.add(cid)
            continue
        ctx.count("fault_delivered")
        for a, d in reqcmp.compare(q, o.reqs[0]):
            ctx.violation("fault:" + a, "after a storage fault the handler ran with an incomplete body: " + d,
                          "CASE %s\n%s\nEND\n" % (cid, texts[cid]))
    ctx.require(ctx.extra.get("fault_refused", 0) > 50 and ctx.extra.get("kind_multipart", 0) > 100, "faults or bodies not reached")
