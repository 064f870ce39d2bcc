"""The response shortcuts send exactly what they were asked for."""
import hashlib, json, re
from .. import core, srvlib, httpgen as g, respgen
from . import p07

DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]

MIX = ("shortcut,redirect,json,internal_redirect",)      # kinds of handlers also run concurrently (harness/mix.h)


def civil(t):
    """seconds since the epoch -> (y, m, d, H, M, S, weekday), with plain arithmetic"""
    days, sec = divmod(t, 86400)
    wd = (days + 3) % 7
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    y = yoe + era * 400 + (m <= 2)
    return y, m, d, sec // 3600, sec // 60 % 60, sec % 60, wd


def rtext(r):
    k = r.random()
    if k < 0.1:
        return b""
    n = max(1, respgen.rsize(r))
    if k > 0.98:
        n = r.choice([32767, 32768, 65535, 65536, 65537, 100000])
    t = g.rbytes(r, min(n, 80), bytes(range(1, 256)))
    return (t * (n // len(t) + 1))[:n]


def script(r):
    """one shortcut -> (op, Script expected)"""
    s = respgen.Script()
    s.headers, s.extra, s.nchunks = {}, [], 1
    pre = []
    if r.random() < 0.3:          # the handler had set other headers before
        v = g.hvalue(r, 12) or b"v"
        s.headers[b"X-Pre"] = v
        pre.append("hdr %s %s" % (b"X-Pre".hex(), v.hex()))
    k = r.choice(["sc", "sc", "sce", "sce", "redir", "json"])
    s.kind = k
    if k == "redir":
        u = (r.choice([b"/", b"http://h/", b"../", b"", b"https://example.com/a?b=c&d="]) + g.rbytes(r, r.choice([1, 5, 40, 300, 1400, 3000]), g.UNRES + b"/?&=%#:"))
        s.code, s.body = 302, b"<h1>302 - Moved</h1>"
        s.headers[b"Location"] = u
        op = "redir " + u.hex()
    elif k == "json":
        d = {}
        for _ in range(r.choice([0, 1, 2, 5, 30])):
            key = g.rbytes(r, r.randrange(1, 12), b"abcdefghij").decode()
            d[key] = rtext(r).decode("latin-1")[:400] if r.random() < 0.8 else {"in": "x" * r.randrange(300), "é": "\"\n\\"}
        s.code, s.body = 200, None
        s.json = d
        s.headers[b"Content-Type"] = b"application/json"
        op = "json " + json.dumps(d, ensure_ascii=True).encode().hex() + (" ref" if r.random() < 0.3 else "")
    else:
        s.code = r.choice(respgen.CODES)
        s.body = rtext(r)
        op = "%s %d %s" % (k, s.code, s.body.hex() or ".")
        if k == "sce":
            for i in range(r.choice([0, 1, 2, 3])):
                n = r.choice([b"X-A%d" % i, g.hname(r), b"Content-Type", b"ETag", b"X-Pre"])
                if n.lower() in (b"server", b"date", b"connection", b"content-length", b"transfer-encoding") or (
                        n in s.headers and n != b"X-Pre") or any(n.lower() == x.lower() and n != x for x in s.headers):
                    continue
                v = g.hvalue(r, r.choice([1, 10, 100, 1500])) or b"v"
                if r.random() < 0.05:
                    v = b""
                if n == b"X-Pre" and n in s.headers:
                    continue
                s.headers[n] = v
                op += " %s %s" % (n.hex(), v.hex() or ".")
    s.declared = len(s.body) if s.body is not None else 0
    s.ops = pre + [op]
    return s


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    ctx.rule = ("text, redirect and JSON shortcuts with random texts, statuses and extra headers, answered to GET/HEAD/POST in HTTP/1.0 and 1.1, "
                "alone and twice on a connection; internal redirections to literal urls and to parts of the request itself, compared with asking "
                "for the new url; dates over the whole time_t range they can express, against calendar arithmetic")
    cases, meta = [], {}
    for i in range(ctx.n(5000, 40000)):
        sc = script(r)
        version = r.choice(["HTTP/1.1", "HTTP/1.0"])
        method = r.choice(["GET", "GET", "POST", "HEAD"])
        req = method.encode() + b" /x " + version.encode() + b"\r\n" + (b"Connection: Keep-Alive\r\n" if version[-1] == "0" else b"") + \
            (b"Content-Length: 0\r\n" if method == "POST" else b"") + b"\r\n"
        reps = 2 if r.random() < 0.3 else 1
        cases.append((str(i), srvlib.case([req] * reps, sc.ops)))
        meta[str(i)] = (sc, method, version, reps)
    # dates
    dates = [0, 1, 59, 86399, 86400, 951782399, 951782400, 951868799, 951868800, 1709164800, 2147483647, 2147483648, 4102444800, 253402300799, -1, -86400, 68169600]
    dates += [r.randrange(-2208988800, 253402300800) for _ in range(ctx.n(800, 20000))]
    big = [253402300800, 10**12, 10**15, 67767976233532799, -10**12, 2**62, -2**62, -62135596801]
    for j in range(0, len(dates), 50):
        cases.append(("d%d" % j, srvlib.case([b"GET / HTTP/1.0\r\n\r\n"], ["date %d" % t for t in dates[j:j + 50]] + ["w 78"])))
        meta["d%d" % j] = dates[j:j + 50]
    cases.append(("big", srvlib.case([b"GET / HTTP/1.0\r\n\r\n"], ["date %d" % t for t in big] + ["w 78"])))
    meta["big"] = []
    # internal redirections
    for j in range(ctx.n(400, 5000)):
        a = g.rbytes(r, r.choice([1, 3, 8, 200]), b"abcdefghijklmnop").decode()
        d = str(r.randrange(100000))
        tbl = ["T urlnew"]
        kind = r.choice(["lit", "lit", "p", "q", "f", "grp"])
        target = r.choice(["to/%s" % a, "to/%s/%s" % (a, d), "none/%s" % a, "forb", "st"])
        front, src = "^from$", "/from"
        url = target
        if kind == "p":
            front, src, url = "^in/", "/in/" + target, "@p"
        elif kind == "q":
            front, src, url = "^q$", "/q?to=" + target, "@q"
        elif kind == "grp":
            front, src = "^g/([a-z]+)$", "/g/zz"
            target = url = "to/" + a
        elif kind == "f":
            target = "to2/" + a
            front, src, url = "^x/", "/x/" + target, "@p"
        tbl += ["T redir " + url.encode().hex(), "T uadd " + front.encode().hex(),
                "T leaf 1 2", "T uadd " + "^to/([a-z]+)$".encode().hex(), "T leaf 2 2", "T uadd " + "^to/([a-z]+)/([0-9]+)$".encode().hex(),
                "T leaf 3 2", "T uadd " + "^to2/".encode().hex(), "T leaf 4 -502", "T uadd " + "forb".encode().hex(),
                "T uaddstatic %s %s 410" % ("st".encode().hex(), b"static".hex()), "T root"]
        m = r.choice([b"GET", b"HEAD", b"POST"])
        if kind != "q" and r.random() < 0.5:      # the query of the request is still there
            src += "?5=five&k"
            target += "?5=five&k"
        q = lambda u: m + b" " + u.encode() + b" HTTP/1.1\r\n" + (b"Content-Length: 0\r\n" if m == b"POST" else b"") + b"\r\n"
        txt = "\n".join(tbl + ["CONN", srvlib.rd([q(src)]), "FREE", "CONN", srvlib.rd([q("/" + target)]), "FREE"])
        cases.append(("i%d" % j, txt))
        meta["i%d" % j] = (src, target, m)
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300, env={"TZ": "VFT-3:30"}), cases)
    for cid, lines in live.items():
        o = srvlib.Obs(lines)
        ctx.evals += 1
        ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        if o.res.get("allocs") or o.res.get("fds"):
            ctx.violation("leak", "left behind: %r" % o.res, rep)
        if cid[0] == "i":
            src, target, m = meta[cid]
            ls = [l for l in lines if l.startswith(("LEAF ", "REDIR", "OUT", "ST ", "CONN"))]
            k = [i for i, l in enumerate(ls) if l == "CONN"]
            first, second = ls[k[0] + 1:k[1]], ls[k[1] + 1:]
            if first[:1] != ["REDIR"]:
                ctx.violation("redirect-route", "%s was not handled by its entry: %r" % (src, first), rep)
                continue
            first = [l if not l.startswith("OUT ") else nodate(l) for l in first[1:]]
            second = [l if not l.startswith("OUT ") else nodate(l) for l in second]
            ctx.count("internal_redirects")
            if first != second:
                ctx.violation("internal-redirect", "%s redirected to %s gives %r, asked directly %r" % (src, target, first, second), rep)
        elif cid[0] in "db" and cid[:3] != "big":
            got = [(t, bytes.fromhex(f[0]) if f and f[0] not in ("", "NULL") else b"") for t, f in o.misc if t in ("date", "iso")]
            for i, t in enumerate(meta[cid]):
                y, mo, d, H, M, S, wd = civil(t)
                want = "%s, %02d %s %04d %02d:%02d:%02d GMT" % (DAYS[wd], d, MONTHS[mo - 1], y, H, M, S)
                wiso = "%04d-%02d-%02dT%02d:%02d:%02dZ" % (y, mo, d, H, M, S)
                ctx.count("dates")
                if got[2 * i][1] != want.encode():
                    ctx.violation("date", "date of %d is %r, not %r" % (t, got[2 * i][1], want), rep)
                if got[2 * i + 1][1] != wiso.encode():
                    ctx.violation("date-iso", "ISO date of %d is %r, not %r" % (t, got[2 * i + 1][1], wiso), rep)
        elif cid == "big":
            ctx.count("huge_dates", len([1 for t, f in o.misc if t == "date"]))
        else:
            sc, method, version, reps = meta[cid]
            if len(o.reqs) != reps and not o.st[0].startswith("-"):
                ctx.violation("no-run", "handler ran %d times of %d" % (len(o.reqs), reps), rep)
                continue
            for j, out in enumerate(o.out):
                closed = o.st[j].startswith("-")
                exp = sc
                ctx.count("shortcut_" + sc.kind)
                if sc.kind == "json":
                    exp = respgen.Script()
                    exp.__dict__.update(sc.__dict__)
                    if method == "HEAD":
                        exp.body = b""
                        exp.declared = 1
                    else:
                        exp.body = out.split(b"\r\n\r\n", 1)[-1]
                        exp.declared = len(exp.body)
                        try:
                            if json.loads(exp.body.decode("utf-8")) != sc.json:
                                ctx.violation("json", "the body %r is not the dictionary %r" % (exp.body[:200], sc.json), rep)
                        except ValueError as e:
                            ctx.violation("json", "the body is not JSON: %s" % e, rep)
                pr = p07.check(ctx, exp, method, version, None, out, closed, rep)
                if pr and pr.framing not in ("length", "none"):
                    ctx.violation("no-length", "the length of a shortcut response is not said", rep)
            jc = [f for t, f in o.misc if t == "jsoncount"]
            if any(int(f[0]) != len(sc.json) for f in jc):
                ctx.violation("json-ref", "the dictionary another one holds changed", rep)
    ctx.sample(texts["0"][:300])
    ctx.require(all(ctx.extra.get("shortcut_" + k, 0) > 100 for k in ("sc", "sce", "redir", "json")) and ctx.extra.get("dates", 0) > 500
                and ctx.extra.get("internal_redirects", 0) > 200, "a shortcut was not exercised")
    ctx.assumptions = ["texts and header values without NUL, header values without CR/LF", "years 1900 to 9999 for the dates that are compared"]


def nodate(l):
    b = bytes.fromhex(l[4:])
    return re.sub(rb"\r\nDate: [^\r\n]*", b"", b)
