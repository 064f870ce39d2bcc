"""Handler scripts with the response a client has to receive."""
from . import httpgen as g

CODES = [200, 200, 200, 200, 201, 206, 207, 301, 302, 303, 307, 400, 401, 403, 404, 405, 416, 418, 500, 501, 502, 503, 299, 599, 429]
NEAR = [0, 1, 2, 3, 10, 100, 700, 1200, 1340, 1400, 1498, 1499, 1500, 1501, 1502, 2999, 3000, 3001, 4500, 511, 512, 513, 5000]


class Script:
    pass


def rsize(r):
    x = r.random()
    if x < 0.35:
        return r.randrange(0, 40)
    if x < 0.85:
        return max(0, r.choice(NEAR) + r.choice([-1, 0, 0, 1]))
    return r.randrange(0, 12000)


def text(r, n):
    t = g.rbytes(r, min(n, 64), g.UNRES + b"<>&%s\r\n\xc3\xa9") or b""
    return (t * (n // max(1, len(t)) + 1))[:n] if n else b""


def gen(r, length=None, flushes=True, small=False):
    """length: None auto | 'exact' | 'short' (declares more than it writes) | 'long' (writes more than declared)"""
    s = Script()
    s.code = r.choice(CODES)
    s.headers = {}
    s.extra = []
    ops = []
    if s.code != 200 or r.random() < 0.2:
        ops.append("code %d" % s.code)
    for _ in range(r.choice([0, 0, 1, 2, 6])):
        k = g.hname(r)
        v = g.hvalue(r, r.choice([0, 1, 10, 100, 1500 if r.random() < 0.2 else 30]))
        if k.lower() in (b"server", b"date", b"content-type") or k in s.headers:
            continue
        s.headers[k] = v
        ops.append("hdr %s %s" % (k.hex(), v.hex() or "."))
    if r.random() < 0.3:
        s.headers[b"Content-Type"] = r.choice([b"application/json", b"text/plain"])
        ops.append("hdr %s %s" % (b"Content-Type".hex(), s.headers[b"Content-Type"].hex()))
    body = b""
    w = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])):
        k = r.choice(["w", "w", "w", "w0", "pf", "pf1", "wrep", "flush", "w_empty"])
        n = rsize(r) if not small else r.randrange(0, 200)
        if k == "w":
            d = bytes(r.randrange(256) for _ in range(min(n, 300)))
            d = (d * (n // max(1, len(d)) + 1))[:n] if n else b""
            if not d:
                continue
            w.append("w " + d.hex())
            body += d
        elif k == "w0":
            d = text(r, n)
            if not d:
                continue
            w.append("w0 " + d.hex())
            body += d
        elif k == "pf":
            d = text(r, n)
            w.append("pf " + d.hex())
            body += d + b"|%d|" % len(d) + d
        elif k == "pf1":
            d = text(r, n)
            w.append("pf1 " + d.hex())
            body += d
        elif k == "wrep":
            d = text(r, r.randrange(1, 60))
            c = r.randrange(1, 60 if not small else 4)
            w.append("wrep %d %s" % (c, d.hex()))
            body += d * c
        elif k == "flush" and flushes and length is None:
            w.append("flush")
        elif k == "w_empty" and flushes and length is None:
            w.append("w")
    s.declared = None
    if length == "exact":
        s.declared = len(body)
    elif length == "short":
        s.declared = len(body) + r.choice([1, 5, 2000])
    elif length == "long" and body:
        s.declared = r.randrange(0, len(body))
    if s.declared is not None:
        ops.append("len %d" % s.declared)
        if r.random() < 0.4:
            ops.append("wh")
            late(r, ops)
    elif r.random() < 0.15:
        ops.append("wh")
        late(r, ops)
    s.ops = ops + w
    s.body = body
    s.nchunks = len(w)
    return s


def late(r, ops):
    """once the headers are sent nothing changes them"""
    if r.random() < 0.3:
        ops.append("code %d" % r.choice(CODES))
    if r.random() < 0.3:
        ops.append("hdr %s %s" % (b"X-Late".hex(), b"late".hex()))


def sweep(r, kind, n):
    """one write of exactly n bytes; kinds: w, w0, pf1 (body) or hdr (a header value)"""
    s = Script()
    s.code, s.headers, s.extra, s.declared, s.nchunks = 200, {}, [], None, 1
    d = (b"0123456789abcdefghijklmnopqrstuvwxyz" * (n // 36 + 1))[:n]
    if kind == "hdr":
        s.headers[b"X-Long"] = d or b"."
        s.ops = ["hdr %s %s" % (b"X-Long".hex(), (d or b".").hex()), "w0 " + b"end".hex()]
        s.body = b"end"
    else:
        s.ops = ["%s %s" % (kind, d.hex())] if n or kind != "w" else []
        s.body = d
    return s
