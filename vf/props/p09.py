"""Requests sharing a connection do not see each other, and it is reused only when both sides can tell where they are."""
import hashlib
from .. import core, srvlib, httpgen as g, respgen, httpresp
from . import reqcmp


def wants(q, nka):
    c = [v.lower() for k, v in q.headers if k.lower() == b"connection"]
    if nka:
        return False
    if q.version == "HTTP/1.1":
        return not (c and c[0] == b"close")
    return bool(c and c[0] == b"keep-alive")


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    ctx.rule = ("sequences of up to 8 generated requests (all kinds, varied segmentation) on one connection, each answered by its own script "
                "(exact, automatic, chunked, under- and over-declared lengths, forced close, error results); every request's handler dump is "
                "compared with that request alone, and the reuse decision with what the client asked and what the framing allows; "
                "non-trivial = a request served as 2nd or later on its connection")
    cases, meta = [], {}
    for i in range(ctx.n(1500, 15000)):
        lines, exp = [], []
        lines.append("CONN")
        sticky = False
        for k in range(r.randrange(2, 9)):
            ver = r.choice(["HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"])
            q = g.gen_request(r, nheaders=r.choice([0, 1, 2, 4]), version=ver)
            if ver == "HTTP/1.0" and r.random() < 0.7 and not any(k2.lower() == b"connection" for k2, _ in q.headers):
                g.add_header(r, q, b"Connection", r.choice([b"keep-alive", b"keep-alive", b"Keep-Alive", b"KEEP-ALIVE", b"keep-alives", b"Upgrade", b"TE", b"keep"]))
            elif ver == "HTTP/1.1" and r.random() < 0.15 and not any(k2.lower() == b"connection" for k2, _ in q.headers):
                g.add_header(r, q, b"Connection", r.choice([b"Upgrade", b"TE", b"closed", b"clos", b"CLOSE", b"Close", b"Keep-Alive"]))
            mode = r.choice([None, None, None, "exact", "exact", "short", "long"] if r.random() < 0.3 else [None, None, "exact"])
            sc = respgen.gen(r, mode)
            ops = ["dump"] + sc.ops
            ret = 1
            if r.random() < 0.03:
                ops.append("nka")
                sticky = True
            if r.random() < 0.04:
                ops.append("ret -2")
                ret = -2
            lines.append("NOH")
            lines += ["H " + o for o in ops]
            ch = g.split(r, q.wire(), r.choice(["one", "two", "few", "crlf", "fixed"]))
            lines += ["RD " + c.hex() for c in ch]
            exp.append((q, sc, mode, ret, sticky, len(ch)))
        lines.append(r.choice(["FREE", "EOF"]))
        cases.append((str(i), "\n".join(lines)))
        meta[str(i)] = exp
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases)
    for cid, ls in live.items():
        exp = meta[cid]
        o = srvlib.Obs(ls)
        ctx.evals += 1
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        seg = 0
        ri = 0
        alive = True
        for k, (q, sc, mode, ret, sticky, nch) in enumerate(exp):
            st = o.st[seg:seg + nch]
            out = b"".join(x for x in o.out[seg:seg + nch] if x)
            # once the connection is gone there is no OUT line any more
            if not alive:
                if any(s != "gone" for s in st):
                    ctx.violation("zombie", "bytes were processed after the connection was closed", rep)
                break
            if ri >= len(o.reqs):
                ctx.violation("lost", "request %d of the connection never reached the handler (%s, states %s)" % (k + 1, q.kind, st[-3:]), rep)
                break
            ob = o.reqs[ri]
            ri += 1
            for a, d in reqcmp.compare(q, ob):
                ctx.violation("isolation:" + a, "request %d of a connection: %s" % (k + 1, d), rep)
            closed = any(s.startswith("-") for s in st)
            try:
                p = httpresp.parse(out, q.method, closed)
            except httpresp.Bad as e:
                if mode in (None, "exact"):
                    ctx.violation("malformed", "response %d: %s" % (k + 1, e), rep)
                break
            if mode in (None, "exact") and q.method != "HEAD" and p.complete and p.body != sc.body:
                ctx.violation("body", "response %d of the connection carries other bytes than its handler wrote" % (k + 1), rep)
            delim = q.method == "HEAD" or (p.framing in ("length", "chunked", "none") and p.complete and not p.rest)
            must = wants(q, sticky) and ret > 0 and delim
            ctx.count("kept" if not closed else "closed")
            if k:
                ctx.distinct.add(hashlib.md5(q.wire()).digest())
                ctx.count("later_requests")
            if must and closed:
                ctx.violation("dropped", "a reusable connection was closed after request %d (%s %s, %s framing)" % (k + 1, q.version, q.headers[-2:], p.framing), rep)
            if not must and not closed:
                ctx.violation("kept", "the connection stays open after request %d although client or framing forbid it (%s, %s, declared %s wrote %d)" %
                              (k + 1, q.version, p.framing, sc.declared, len(sc.body)), rep)
            if closed:
                alive = False
            seg += nch
        ctx.count("requests", ri)
    ctx.sample(texts["0"][:300])
    ctx.require(ctx.extra.get("later_requests", 0) > 500 and ctx.extra.get("closed", 0) > 100, "too few reuses observed")
    ctx.assumptions = ["the client waits for each response before sending the next request"]
