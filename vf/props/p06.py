"""Whatever point a connection ends at, its memory, descriptors and temporary files are released."""
import hashlib
from .. import core, srvlib, httpgen as g
LEVEL = "fault_enumeration"


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    ctx.rule = ("every request kind cut at every byte (short requests) or at sampled bytes, then the connection ends by client close or server "
                "teardown; plus refused/mutated streams, storage faults, failing writes and keep-alive sequences; after each, heap allocations, "
                "descriptors and temporary files owned by the connection must be back to the level before it; non-trivial = distinct cut stream")
    cases, meta = [], {}
    n = ctx.n(600, 2600)
    for i in range(n):
        x = r.random()
        sets = []
        q = g.gen_request(r, nheaders=r.choice([0, 1, 2]), huge=4000 if r.random() < 0.1 else 0)
        s = q.wire()
        if x < 0.25:
            s = g.mutate(r, s)
        elif x < 0.4:
            s = s + g.gen_request(r, nheaders=1).wire()
        if r.random() < 0.15:
            sets.append("fail_mkstemp")
        elif r.random() < 0.2:
            sets.append("fw_budget %d" % r.randrange(0, 300))
        if r.random() < 0.2:
            sets += ["max_post %d" % r.choice([10, 100, 400]), "max_file %d" % r.choice([0, 10, 500])]
        if r.random() < 0.2:
            sets.append("wplan " + ",".join(str(r.choice([0, 1, 5, 100, -1])) for _ in range(8)))
        script = r.choice([["dump", "w 6f6b"], ["sdump", "w 6f6b"], ["w 6f6b", "flush", "wrep 5 " + "61" * 700], ["ret -500"], ["ret 0"],
                           ["w 61", "ret -2"], ["sset 61 62", "sfree", "w 6f"], ["dump", "cookie 61 62 - - 10 0", "cookie 63 64 - - -1 1"]])
        cuts = range(1, len(s) + 1) if len(s) < 260 or r.random() < 0.08 and len(s) < 1500 else sorted(r.sample(range(1, len(s) + 1), min(len(s), 60)))
        for c in cuts:
            cid = "%d.%d" % (i, c)
            pre = s[:c]
            ch = [pre] if r.random() < 0.5 else g.split(r, pre, r.choice(["two", "few", "crlf"]))
            cases.append((cid, srvlib.case(ch, script, sets, r.choice(["FREE", "EOF"]))))
            meta[cid] = pre
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=400), cases)
    for cid, lines in live.items():
        o = srvlib.Obs(lines)
        ctx.evals += 1
        ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        ctx.count("temp_files_created", o.res["tmp"])
        if o.res["tmp"]:
            ctx.count("cuts_with_temp_files")
        if o.res["left"] > 0:
            ctx.violation("tempfile", "%d temporary files left behind" % o.res["left"], rep)
        if o.res["fds"] != 0:
            ctx.violation("fd", "%+d descriptors after the connection ended" % o.res["fds"], rep)
        if o.res["allocs"] != 0:
            ctx.violation("heap", "%+d heap blocks after the connection ended" % o.res["allocs"], rep)
        if o.freed not in (None, 1):
            ctx.violation("close-count", "transport closed %s times" % o.freed, rep)
    ctx.sample(texts[cases[0][0]][:300])
    ctx.require(ctx.extra.get("cuts_with_temp_files", 0) > 100, "no temporary files in play")
    ctx.assumptions = ["sessions holding data live on in the session store by design and are not part of the connection"]
