"""Compares what a handler observed with what the generated request says it has to observe."""
from collections import Counter

HTTP11 = 0x10


def lookups(q):
    """script lines that look up every expected key, and the acceptable values"""
    ops, want = [], []
    def add(kind, key, pairs, icase=False):
        vals = [v for k, v in pairs if (k.lower() == key.lower() if icase else k == key)]
        k = key.swapcase() if icase else key
        ops.append("look %s %s" % (kind, k.hex()))
        want.append((kind, key, vals))
    for k, _ in q.headers[:12]:
        add("h", k, q.headers, True)
    for k, _ in (q.query or [])[:6]:
        add("q", k, q.query)
    for k, _ in (q.post or [])[:6]:
        add("p", k, q.post)
    for k, _ in q.cookies[:6]:
        add("c", k, q.cookies)
    for kind in "hqpc":
        ops.append("look %s %s" % (kind, b"NoSuchKey!".hex()))
        want.append((kind, b"NoSuchKey!", [None]))
    return ops, want


def compare(q, o, flags=0x10):
    """q: httpgen.Req, o: observed request dict -> list of (aspect, detail)"""
    bad = []
    def eq(a, got, want):
        if got != want:
            bad.append((a, "%s: handler saw %r, the request says %r" % (a, trunc(got), trunc(want))))
    eq("method", o.get("method"), q.method.encode())
    eq("fullpath", o.get("fullpath"), q.path)
    eq("path", o.get("path"), q.path[1:])
    eq("version", bool(o["flags"] & flags), q.version == "HTTP/1.1")
    eq("headers", Counter(o["h"]), Counter(q.headers))
    eq("query", Counter(o["q"]), Counter(q.query or []))
    eq("post", Counter(o["p"]), Counter(q.post or []))
    if q.kind == "put":
        eq("put", o.get("put"), q.put)
    else:
        eq("files", Counter(o["f"]), Counter(q.files or []))
    if q.data is not None:
        eq("data", o.get("data"), q.data)
    elif q.kind not in ("put", "raw", "getbody"):
        eq("nodata", o.get("data"), None)
    eq("cookies", Counter(o["c"]), Counter(q.cookies))
    lang = [v for k, v in q.headers if k.lower() == b"accept-language"]
    want = b"C"
    if lang:
        import re
        want = re.split(rb"[-;,]", lang[0])[0]
    eq("language", o.get("lang"), want)
    return bad


def trunc(x):
    if isinstance(x, Counter):
        return {k: v for k, v in list(x.items())[:12]}
    if isinstance(x, bytes) and len(x) > 120:
        return x[:60] + b"..(%d).." % len(x) + x[-40:]
    return x
