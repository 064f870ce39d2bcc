"""Configured size limits bound what a client can make the server accept, store and hold."""
import hashlib
from .. import core, srvlib, httpgen as g


def around(r, n):
    return max(0, n + r.choice([-40, -3, -2, -1, 0, 0, 1, 1, 2, 3, 40, 400, 5000]))


def mp(r, fields, files, big_names=False):
    bnd = g.rbytes(r, r.choice([1, 10, 40]), g.UNRES)
    out = b"--" + bnd
    parts = [(n, None) for n in fields] + [(n, 1) for n in files]
    r.shuffle(parts)
    for k, (n, isf) in enumerate(parts):
        # content with near-boundaries, so that counting is exercised
        c = bytearray()
        while len(c) < n:
            x = r.random()
            c += b"\r\n--" + bnd[:r.randrange(len(bnd))] if x < 0.1 else r.choice([b"\r\n", b"\n", b"\r", b"-"]) if x < 0.2 else g.rbytes(r, r.randrange(1, 30), g.UNRES)
        c = bytes(c[:n])
        if b"--" + bnd in c:
            c = c.replace(b"--" + bnd, b"==" + bnd)
        c = c.replace(b"\n--" + bnd, b"\n==" + bnd)
        nm = b"n%d" % k
        out += b"\r\nContent-Disposition: form-data; name=\"" + nm + b"\"" + (b"; filename=\"f\"" if isf else b"") + b"\r\n\r\n" + c + b"\r\n--" + bnd
    out += b"--\r\n"
    return b"multipart/form-data; boundary=" + bnd, out


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    ctx.rule = ("bodies sized around the configured limits (-40..+5000 bytes; several fields and files; near-boundary contents; lying or "
                "huge Content-Length) in random segmentations; observed: whether the handler ran, bytes written to temporary files, and "
                "peak heap during the request; non-trivial = a case within 40 bytes of a limit or over it")
    cases, meta = [], {}
    for i in range(ctx.n(10000, 60000)):
        kind = r.choice(["urlenc", "raw", "put", "mpfile", "mpfile", "mpfield", "mpok", "claim"])
        mpost, mfile = r.choice([50, 200, 1000, 5000]), r.choice([0, 1, 50, 1000, 1024, 3000])
        must = None                                # accept / refuse / None
        hdr = b""
        if kind == "urlenc":
            n = around(r, mpost)
            body = (b"a=" + b"x" * n)[:n]
            hdr = b"Content-Type: application/x-www-form-urlencoded\r\n"
            must = n <= mpost
            m = "POST"
        elif kind == "raw":
            n = around(r, mpost)
            body = b"j" * n
            m = r.choice(["POST", "PROPFIND", "PATCH", "DELETE", "GET"])
            hdr = r.choice([b"", b"Content-Type: application/json\r\n"])
            must = n <= mpost
        elif kind == "put":
            n = around(r, mfile)
            body = b"p" * n
            m = "PUT"
            must = n <= mfile
        elif kind in ("mpfile", "mpfield", "mpok"):
            m = "POST"
            if kind == "mpfile":
                tot = around(r, mfile)
                k = r.choice([1, 1, 2, 3])
                cuts = sorted(r.randrange(0, tot + 1) for _ in range(k - 1))
                files = [y - x for x, y in zip([0] + cuts, cuts + [tot])]
                fields = []
                mpost = 100000
                must = tot <= mfile
            elif kind == "mpfield":
                tot = mpost + r.choice([1, 2, 3, 10, 100, 2000])
                k = r.choice([1, 2, 4])
                cuts = sorted(r.randrange(0, tot + 1) for _ in range(k - 1))
                fields = [y - x for x, y in zip([0] + cuts, cuts + [tot])]
                files = []
                must = False
            else:
                fields = [r.randrange(0, 200) for _ in range(r.randrange(0, 4))]
                files = [r.randrange(0, 2000) for _ in range(r.randrange(0, 3))]
                mfile = sum(files)
                must = True
            ct, body = mp(r, fields, files)
            if kind == "mpok":
                mpost = len(body)
            hdr = b"Content-Type: " + ct + b"\r\n"
        else:
            m, ct = r.choice([("POST", b"Content-Type: application/x-www-form-urlencoded\r\n"),
                              ("POST", b"Content-Type: multipart/form-data; boundary=a\r\n"), ("PUT", b""), ("PATCH", b""), ("GET", b"")])
            hdr = ct
            body = b"--a\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n" + b"z" * r.randrange(0, 300)
            n = r.choice([10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 10 ** 12, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 + 3, 10 ** 30])
            must = False
        cl = len(body) if kind != "claim" else n
        s = m.encode() + b" / HTTP/1.1\r\n" + hdr + b"Content-Length: %d\r\n\r\n" % cl + body
        cid = str(i)
        ch = g.split(r, s, r.choice(["one", "two", "few", "fixed", "delim"]))
        cases.append((cid, srvlib.case(ch, ["w 6f6b"], ["max_post %d" % mpost, "max_file %d" % mfile])))
        meta[cid] = (kind, must, mpost, mfile, len(s), m)
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases)
    for cid, lines in live.items():
        kind, must, mpost, mfile, n, m = meta[cid]
        o = srvlib.Obs(lines)
        ctx.evals += 1
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        ran = len(o.reqs) > 0
        ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
        ctx.count("%s_%s" % (kind, "over" if not must else "within"))
        if must is True and not ran:
            ctx.violation("refused-within:" + kind, "%s %s within limits (post %d, file %d) was not delivered" % (m, kind, mpost, mfile), rep)
        if must is False and ran:
            ctx.violation("accepted-over:" + kind, "%s %s over the limits (post %d, file %d) reached the handler" % (m, kind, mpost, mfile), rep)
        if o.res.get("tw", 0) > mfile:
            ctx.violation("stored-over:" + kind, "%d bytes stored in temporary files, limit %d" % (o.res["tw"], mfile), rep)
        if o.res.get("peak", 0) > mpost + 5 * n + 200000:
            ctx.violation("memory-over:" + kind, "peak of %d bytes of heap for a %d byte stream with post limit %d" % (o.res["peak"], n, mpost), rep)
    ctx.sample(texts["0"][:400])
    ctx.require(all(ctx.extra.get(k, 0) > 20 for k in ("urlenc_over", "urlenc_within", "put_over", "mpfile_over", "mpfile_within", "mpfield_over")), "limits not reached")
    ctx.assumptions = ["the post limit counts, for multipart, field names as well as contents: between 'all contents over' and 'whole body within' either answer is accepted"]
