"""Method, path, query, headers and cookies reach the handler exactly as sent."""
import hashlib
from .. import core, srvlib, httpgen as g
from . import reqcmp


def drive(ctx, kinds, n, huge):
    b = srvlib.binary()
    r = ctx.rng
    cases, meta = [], {}
    for i in range(n):
        q = g.gen_request(r, kind=r.choice(kinds), huge=huge if r.random() < 0.3 else 0)
        s = q.wire()
        ops, want = reqcmp.lookups(q)
        st = r.choice(["one", "bytes", "two", "few", "crlf", "delim", "fixed"])
        if st == "bytes" and len(s) > 4000:
            st = "fixed"
        ch = g.split(r, s, st)
        cases.append((str(i), srvlib.case(ch, ["dump"] + ops)))
        meta[str(i)] = (q, want)
    texts = dict(cases)
    res = core.run_cases(ctx, b, cases, timeout=300)
    live = srvlib.die_report(ctx, res, cases)
    for cid, lines in live.items():
        q, want = meta[cid]
        ctx.evals += 1
        o = srvlib.Obs(lines)
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        if len(o.reqs) != 1:
            ctx.violation("not-delivered:" + q.kind, "valid %s request reached the handler %d times (states %s)\n%r" %
                          (q.kind, len(o.reqs), o.st[:5], q.wire()[:300]), rep)
            continue
        ob = o.reqs[0]
        ctx.distinct.add(hashlib.md5(q.wire()).digest())
        ctx.count("kind_" + q.kind)
        ctx.count("headers_checked", len(q.headers))
        ctx.count("fields_checked", len(q.query or []) + len(q.post or []) + len(q.files or []) + len(q.cookies))
        for a, d in reqcmp.compare(q, ob):
            ctx.violation("value:" + a, d + "\n%r" % q.wire()[:300], rep)
        looks = [srvlib.unhex(f[0] if f else "") for t, f in ob.get("ops", []) if t == "look"]
        for (kind, key, vals), got in zip(want, looks):
            ctx.count("lookups")
            if got not in vals:
                ctx.violation("lookup:" + kind, "lookup of %r in %s returned %r, sent %r" % (key, kind, got, vals), rep)
    for c in cases[:2]:
        ctx.sample(c[1][:500])
    ctx.assumptions = ["generated names avoid what the documented format cannot carry (raw '+' in paths, '\"' and ';' in part names)"]
    return live


def run(ctx):
    ctx.rule = ("grammar-generated valid requests (percent/plus encodings, repeated names, folded and oddly spaced headers, CRLF or LF, "
                "cookies, sizes up to token limits) in random segmentations; the handler's full dump plus keyed lookups are compared with "
                "what was encoded; non-trivial = distinct request delivered and compared")
    drive(ctx, ["none", "none", "none", "getbody", "urlenc"], ctx.n(10000, 50000), 6000)
    unknown(ctx)
    ctx.require(ctx.extra.get("headers_checked", 0) > 1000, "too few headers observed")


NOMETHODS = ["FOO", "get", "Get", "GE", "GETT", "POS", "POSTS", "TRACE", "CONNECT", "LOCK", "UNLOCK", "COPY", "SEARCH", "HEADER", "PUTT", "DELETED", "PATCHES", "X" * 40, "PROPFINDER", "M-SEARCH"]


def unknown(ctx):
    """a handler can not be told a method nobody sent"""
    b = srvlib.binary()
    r = ctx.rng
    cases, meta = [], {}
    for i in range(ctx.n(200, 2000)):
        q = g.gen_request(r, kind="none")
        q.method = NOMETHODS[i % len(NOMETHODS)]
        cases.append(("u%d" % i, srvlib.case(g.split(r, q.wire(), r.choice(["one", "two", "few"])), ["dump"])))
        meta["u%d" % i] = q
    texts = dict(cases)
    for cid, lines in srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases).items():
        o = srvlib.Obs(lines)
        ctx.evals += 1
        ctx.count("unknown_methods")
        for ob in o.reqs:
            if ob.get("method") != meta[cid].method.encode():
                ctx.violation("method", "a request of method %s reached the handler as %r" % (meta[cid].method, ob.get("method")), "CASE %s\n%s\nEND\n" % (cid, texts[cid]))
