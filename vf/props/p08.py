"""Short or failed writes never corrupt what the client receives."""
import hashlib
from .. import core, srvlib, httpgen as g, respgen, httpresp
LEVEL = "fault_enumeration"


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    ctx.rule = ("each handler script is first answered over a perfect transport, then with writes that accept only part of the data and with "
                "the k-th transport write failing (every k up to 12, then sampled), transiently or for good; delivered bytes must equal the "
                "reference (partial writes) or be a prefix of it with the connection closed (failed write)")
    cases, meta = [], {}
    for i in range(ctx.n(900, 9000)):
        sc = respgen.gen(r, r.choice([None, None, "exact"]))
        version = r.choice(["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"])
        method = r.choice(["GET", "GET", "GET", "HEAD"])
        conn = r.choice([b"", b"", b"Connection: close\r\n", b"Connection: Keep-Alive\r\n"])
        req = method.encode() + b" /x " + version.encode() + b"\r\n" + conn + b"\r\n"
        plans = [("ref", None)]
        plans.append(("part", ",".join(str(r.choice([1, 1, 2, 3, 10, 100, 1000, 0])) for _ in range(4000))))
        plans.append(("part", ",".join(["1"] * 4000)))
        plans.append(("part", ",".join(str(r.choice([0, 1, 700])) for _ in range(300))))
        for k in list(range(0, 12)) + [r.randrange(12, 60)]:
            plans.append(("fail", ",".join(["0"] * k + [str(r.choice([-1, -1, -2, -3]))])))
        plans.append(("fail", ",".join([str(r.choice([0, 1, 3])) for _ in range(r.randrange(1, 30))] + ["-2"])))
        for j, (t, pl) in enumerate(plans):
            cid = "%d.%d" % (i, j)
            cases.append((cid, srvlib.case([req], sc.ops, ["wplan " + pl] if pl else [])))
            meta[cid] = (i, j, t)
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=400), cases)
    obs = {c: srvlib.Obs(l) for c, l in live.items()}
    for cid, o in obs.items():
        i, j, t = meta[cid]
        if j == 0 or "%d.0" % i not in obs:
            continue
        ref = httpresp.nodate(obs["%d.0" % i].allout())
        got = o.allout()
        ctx.evals += 1
        rep = "CASE ref\n%s\nEND\nCASE %s\n%s\nEND\n" % (texts["%d.0" % i], cid, texts[cid])
        refst, st = obs["%d.0" % i].st[0], o.st[0]
        full = httpresp.nodate(got)
        # a cut inside the Date line can not be normalised: compare up to the cut
        raw = obs["%d.0" % i].allout()
        if t == "part":
            ctx.count("partial_runs")
            ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
            if full != ref:
                k = next((x for x in range(min(len(full), len(ref))) if full[x] != ref[x]), min(len(full), len(ref)))
                ctx.violation("partial", "with partial writes the client received other bytes: %d vs %d, first difference at %d %r vs %r" %
                              (len(full), len(ref), k, full[k:k + 30], ref[k:k + 30]), rep)
            if st != refst:
                ctx.violation("partial-status", "partial writes changed the fate of the connection: %s vs %s" % (st, refst), rep)
        else:
            wfailed = len(got) < len(raw)
            if not wfailed:
                if full != ref:
                    ctx.violation("fail-bytes", "bytes differ from the reference", rep)
                continue
            ctx.count("failed_writes")
            ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
            ok = mask(raw)[:len(got)] == mask(got)
            if not ok:
                k = next((x for x in range(len(got)) if mask(got)[x] != mask(raw)[x]), -1)
                ctx.violation("fail-prefix", "after a failed write the client received bytes that are not a prefix of the response (at %d of %d): %r" %
                              (k, len(got), got[max(0, k - 10):k + 30]), rep)
            if not st.startswith("-"):
                ctx.violation("fail-kept", "a response cut by a failed write leaves the connection open (%d of %d bytes sent)" % (len(got), len(raw)), rep)
    ctx.sample(texts["0.2"][:200])
    ctx.require(ctx.extra.get("partial_runs", 0) > 300 and ctx.extra.get("failed_writes", 0) > 300, "faults not reached")


def mask(b):
    """blanks the time in the Date header (fixed width)"""
    k = b.find(b"\r\nDate: ")
    if k < 0:
        return b
    e = b.find(b"\r\n", k + 2)
    e = len(b) if e < 0 else e
    return b[:k + 8] + b"x" * (e - k - 8) + b[e:]
