"""Every response is well formed and frames exactly what the handler produced."""
import hashlib, html
from collections import Counter
from .. import core, srvlib, httpgen as g, respgen, httpresp

MIX = ("printf,htmlsafe", "printf")      # kinds of handlers also run concurrently (harness/mix.h)


def check(ctx, sc, method, version, ka, out, closed, rep):
    try:
        p = httpresp.parse(out, method, closed)
    except httpresp.Bad as e:
        ctx.violation("malformed", "%s response is not valid HTTP: %s" % (method, e), rep)
        return None
    ctx.count("framing_" + p.framing)
    if p.code != sc.code:
        ctx.violation("code", "status %d, handler set %d" % (p.code, sc.code), rep)
    if p.version != version:
        ctx.violation("version", "answered %s to %s" % (p.version, version), rep)
    if p.rest:
        ctx.violation("excess", "%d bytes after the end of the response: %r" % (len(p.rest), p.rest[:60]), rep)
    if not p.complete:
        ctx.violation("incomplete", "the client can not reach the end of the response (%s framing, %d body bytes of %d)" % (p.framing, len(p.body), len(sc.body)), rep)
    elif method != "HEAD" and p.body != sc.body:
        i = next((k for k in range(min(len(p.body), len(sc.body))) if p.body[k] != sc.body[k]), min(len(p.body), len(sc.body)))
        ctx.violation("body", "body differs at %d (got %d bytes, handler wrote %d): %r vs %r" % (i, len(p.body), len(sc.body), p.body[i:i + 20], sc.body[i:i + 20]), rep)
    want = dict(sc.headers)
    want.setdefault(b"Content-Type", b"text/html")
    got = Counter((k, v) for k, v in p.headers if k in want or k in sc.headers)
    if got != Counter(want.items()):
        ctx.violation("headers", "handler headers %r, response has %r" % (want, got), rep)
    for k in (b"Server", b"Date"):
        if sum(1 for n, v in p.headers if n == k) != 1:
            ctx.violation("headers", "%r header missing or repeated" % k, rep)
    known = {b"server", b"date", b"content-length", b"transfer-encoding", b"connection"}
    stray = [n for n, v in p.headers if n.lower() not in known and n not in want]
    if stray:
        ctx.violation("headers", "headers nobody set: %r" % stray, rep)
    if method == "HEAD" and sc.declared is None and b"".join(v for n, v in p.headers if n == b"Content-Length") not in (b"", b"%d" % len(sc.body)):
        ctx.violation("head-length", "HEAD announces a length that is not the one of the body", rep)
    if p.framing == "close" and not closed:
        ctx.violation("close-framing", "body delimited by close, but the connection stays open", rep)
    return p


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    ctx.rule = ("handler scripts (status, headers, raw/string/formatted writes of sizes around the buffer and formatting limits, flushes, "
                "declared or automatic length, explicit header write) answered to GET/HEAD/POST, HTTP/1.0 and 1.1, keep-alive or close; the "
                "bytes are read by a strict HTTP client; non-trivial = distinct script whose response was parsed and compared")
    cases, meta = [], {}
    for i in range(ctx.n(10000, 60000)):
        sc = respgen.gen(r, r.choice([None, None, "exact"]))
        version = r.choice(["HTTP/1.1", "HTTP/1.0"])
        method = r.choice(["GET", "GET", "POST", "HEAD", "OPTIONS"])
        conn = r.choice([b"", b"Connection: close\r\n", b"Connection: Keep-Alive\r\n", b"Connection: keep-alive\r\n"])
        req = method.encode() + b" /x " + version.encode() + b"\r\n" + conn + (b"Content-Length: 0\r\n" if method == "POST" else b"") + b"\r\n"
        ops = sc.ops + (["nka"] if r.random() < 0.1 else [])
        if r.random() < 0.5:
            ops = ["nka"] + sc.ops if r.random() < 0.2 else sc.ops
        cases.append((str(i), srvlib.case([req], ops)))
        meta[str(i)] = (sc, method, version, None)
    # every size of a single write, around and across the formatting and output buffers
    for kind, lo, hi in (("pf1", 0, 1700), ("w", 1350, 1650), ("w0", 1350, 1650), ("hdr", 0, 1700)) if ctx.tier == "quick" else \
            (("pf1", 0, 9000), ("w", 0, 9000), ("w0", 0, 6000), ("hdr", 0, 6000)):
        for n in range(lo, hi):
            sc = respgen.sweep(r, kind, n)
            cid = "%s%d" % (kind, n)
            m = ("GET", "HTTP/1.0") if n % 5 == 0 else ("GET", "HTTP/1.1")
            cases.append((cid, srvlib.case([b"GET /x " + m[1].encode() + b"\r\n\r\n"], sc.ops)))
            meta[cid] = (sc, m[0], m[1], None)
    for i in range(ctx.n(400, 4000)):
        t = g.rbytes(r, respgen.rsize(r) or 3, b"<>&\"' abc;#x27\xc3\xa9")
        cases.append(("h%d" % i, srvlib.case([b"GET / HTTP/1.1\r\n\r\n"], ["html " + t.hex()])))
        meta["h%d" % i] = (None, "GET", "HTTP/1.1", t)
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases)
    for cid, lines in live.items():
        sc, method, version, t = meta[cid]
        o = srvlib.Obs(lines)
        ctx.evals += 1
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        if len(o.reqs) != 1:
            ctx.violation("no-run", "handler ran %d times" % len(o.reqs), rep)
            continue
        ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
        closed = o.st[0].startswith("-")
        if t is None:
            check(ctx, sc, method, version, None, o.allout(), closed, rep)
        else:
            try:
                p = httpresp.parse(o.allout(), method, closed)
            except httpresp.Bad as e:
                ctx.violation("malformed", str(e), rep)
                continue
            ctx.count("html_safe")
            body = p.body.decode("latin-1")
            if any(c in body for c in "<>\"") or html.unescape(body) != html.unescape("") + t.decode("latin-1"):
                ctx.violation("html-safe", "html-safe write of %r gave %r" % (t[:80], p.body[:120]), rep)
    ctx.sample(texts["0"][:300])
    ctx.require(all(ctx.extra.get("framing_" + k, 0) > 50 for k in ("length", "chunked", "close", "none")), "a framing was not exercised")
    ctx.assumptions = ["handlers set header names/values without CR/LF and do not write a body for 204/304/1xx"]
