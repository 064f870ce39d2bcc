"""Every cookie set on a response reaches the client intact."""
import calendar, hashlib, re, time
from .. import core, srvlib, httpresp, httpgen as g

TOK = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~"
VAL = TOK + b"()/:<=>?@[]{}"
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAY = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
SS = {0x10: b"None", 0x20: b"Lax", 0x40: b"Strict"}

MIX = ("cookie",)      # kinds of handlers also run concurrently (harness/mix.h)


def rnd(r, n, pool=VAL):
    return bytes(r.choice(pool) for _ in range(n))


def tok(b):
    return "." if b == b"" else b.hex()


def parse_date(s):
    m = re.fullmatch(r"(\w{3}), (\d{2}) (\w{3}) (\d{4,}) (\d{2}):(\d{2}):(\d{2}) (GMT|UTC)", s.decode("latin1"))
    if not m or m.group(3) not in MON:
        return None
    y, mo, d = int(m.group(4)), MON.index(m.group(3)) + 1, int(m.group(2))
    t = calendar.timegm((y, mo, d, int(m.group(5)), int(m.group(6)), int(m.group(7)), 0, 0, 0))
    if 1 <= y <= 9999 and DAY[time.gmtime(t).tm_wday] != m.group(1):
        return None
    return t


def parse_cookie(v):
    parts = v.split(b";")
    n, eq, val = parts[0].partition(b"=")
    at = {}
    for p in parts[1:]:
        k, e, x = p.strip(b" ").partition(b"=")
        k = k.lower()
        if k in at:
            return None
        at[k] = x if e else True
    return (n, val, at) if eq else None


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    ctx.rule = ("responses with 1..12 generated cookies (names, values, paths, domains of 0..5000 bytes, around every buffer limit, all flags and "
                "validities), mixed with other headers, session data and bodies; every Set-Cookie line is parsed as a client would and compared with the "
                "calls that reported success; non-trivial = a distinct cookie found intact on the wire")
    cases, meta = [], {}
    for i in range(ctx.n(2500, 40000)):
        ops, cs = [], []
        names = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 5, 12])):
            name = r.choice(names) if names and r.random() < 0.08 else rnd(r, r.choice([1, 3, 8, 30]), TOK)
            names.append(name)
            size = r.choice([0, 1, 5, 20, 200]) if r.random() < 0.7 else r.choice([1000, 1499, 1500, 1501, 2000, 3000, 4000, 4080, 4090, 4095, 4096, 4097, 5000, 9000]) + r.randrange(-6, 7)
            val = rnd(r, size)
            pa = None if r.random() < 0.5 else b"/" + rnd(r, r.choice([0, 3, 20, 20, 20, 4100 if r.random() < 0.2 else 9]))
            dom = None if r.random() < 0.6 else rnd(r, r.choice([1, 11, 11, 60, 4096 if r.random() < 0.1 else 9]), b"abcdefghijk.-0123456789")
            if r.random() < 0.15:       # total exactly around the limit
                room = 4096 - len(name) - 1 - (7 + len(pa) if pa is not None else 0) - (9 + len(dom) if dom is not None else 0)
                if room > 60:
                    val = rnd(r, max(0, room + r.randrange(-60, 4)))
            valid = r.choice([-1, -1, 0, 1, 60, 3600, 86400, 31536000, 10 ** 9, 2 ** 31, 3 * 10 ** 9, 5 * 10 ** 9, 2 ** 33, -5])
            fl = r.choice([0, 1, 2, 3]) | r.choice([0, 0, 0x10, 0x20, 0x40])
            cs.append((name, val, pa, dom, valid, fl))
            ops.append("cookie %s %s %s %s %d %d" % (tok(name), tok(val), "-" if pa is None else tok(pa), "-" if dom is None else tok(dom), valid, fl))
            if r.random() < 0.2:
                ops.append("hdr %s %s" % (b"X-H".hex(), rnd(r, r.choice([1, 50, 1400])).hex()))
        sess = r.random() < 0.3
        if sess:
            ops.insert(r.randrange(len(ops) + 1), "sset 61 62")
        drop = sess and r.random() < 0.3
        if drop:
            ops.append("sdel 61")
        body = rnd(r, r.choice([0, 2, 100, 1490, 3000]))
        if body:
            ops.append("w " + body.hex())
        m = r.choice([b"GET", b"GET", b"POST", b"HEAD"])
        ver = r.choice([b"HTTP/1.1", b"HTTP/1.0"])
        wire = m + b" / " + ver + b"\r\n" + (b"Content-Length: 0\r\n" if m == b"POST" else b"") + b"\r\n"
        cases.append((str(i), srvlib.case([wire], ops)))
        meta[str(i)] = (cs, sess and not drop, m, body)
    follow = {}
    for i in range(ctx.n(400, 5000)):       # the session cookie along the life of a session
        lines, exp = ["SESSIONS mem", "CONN", "JAR 0"], []
        data = {}
        for k in range(r.randrange(2, 9)):
            ops = []
            touched = False
            for _ in range(r.randrange(0, 4) if k else 1):
                key = r.choice(["61", "62", "63"])
                op = r.choice(["sset", "sset", "sget", "sget", "sdel", "sfree"]) if k else "sset"
                ops.append("H %s %s" % (op, key + " 76" if op == "sset" else key if op != "sfree" else ""))
                if op == "sset":
                    data[key] = 1
                elif op == "sdel":
                    data.pop(key, None)
                elif op == "sfree":
                    data = {}
                touched = op != "sfree"
            more = ["H cookie %s %s - - -1 0" % (rnd(r, 4, TOK).hex(), rnd(r, 9).hex()) for _ in range(r.choice([0, 0, 1, 3]))]
            lines += ["NOH"] + more + ops + ["H w 6f6b"]
            if r.random() < 0.3:
                lines.append("CONN")
            head = b"GET / HTTP/1.1\r\nCookie: a=b; sessionid="
            lines += ["JAR 0", "RDT %s @0 %s" % (head.hex(), b"\r\n\r\n".hex())]
            exp.append((bool(touched and data), len(more)))
        cases.append(("f%d" % i, "\n".join(lines + ["FREE", "SESSIONS mem"])))
        follow["f%d" % i] = exp
    t0 = time.time()
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases)
    t1 = time.time()
    texts = dict(cases)
    for cid, ls in live.items():
        if cid in follow:
            rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
            ctx.evals += 1
            o = srvlib.Obs(ls)
            if len(o.out) != len(follow[cid]):
                ctx.violation("lost", "%d of %d requests answered" % (len(o.out), len(follow[cid])), rep)
                continue
            for k, (out, (want, more)) in enumerate(zip(o.out, follow[cid])):
                try:
                    p = httpresp.parse(out, "GET", True)
                except httpresp.Bad as e:
                    ctx.violation("malformed", "response with cookies: %s" % e, rep)
                    break
                sent = [v for kk, v in p.headers if kk.lower() == b"set-cookie"]
                ses = [v for v in sent if v.startswith(b"sessionid=")]
                if len(ses) != want or len(sent) - len(ses) != more:
                    ctx.violation("session", "request %d of a client sent %d session cookies and %d others, the session %s data and %d were added" %
                                  (k + 1, len(ses), len(sent) - len(ses), "has" if want else "has no", more), rep)
                    break
                ctx.count("session_cookie" if want else "no_session_cookie")
            continue
        cs, sess, m, body = meta[cid]
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        ctx.evals += 1
        o = srvlib.Obs(ls)
        rets = [int(a[0]) for t, a in o.misc if t == "cookie"]
        if len(rets) != len(cs):
            ctx.violation("noresult", "%d of %d cookie calls reported" % (len(rets), len(cs)), rep)
            continue
        try:
            p = httpresp.parse(o.allout(), m.decode(), True)
        except httpresp.Bad as e:
            ctx.violation("malformed", "response with cookies: %s" % e, rep)
            continue
        if m != b"HEAD" and p.body != body:
            ctx.violation("body", "the body after the cookies differs", rep)
        sent = [v for k, v in p.headers if k.lower() == b"set-cookie"]
        ses = [v for v in sent if v.startswith(b"sessionid=")]
        sent = [v for v in sent if not v.startswith(b"sessionid=")]
        if len(ses) != (1 if sess else 0):
            ctx.violation("session", "%d session cookies, session %s data" % (len(ses), "has" if sess else "has no"), rep)
        exp = []
        for c, ok in zip(cs, rets):
            name, val, pa, dom, valid, fl = c
            total = len(name) + len(val) + len(pa or b"") + len(dom or b"")
            if ok:
                exp.append(c)
            else:
                ctx.count("refused")
                if total < 3800:
                    ctx.violation("refused", "a cookie of %d bytes was refused" % total, rep)
        left = list(sent)
        for name, val, pa, dom, valid, fl in exp:
            hit = None
            why = "it is not on the wire"
            for v in left:
                q = parse_cookie(v)
                if q is None or q[0] != name or q[1] != val:
                    continue
                at = dict(q[2])
                e = at.pop(b"expires", None)
                w = {}
                if pa is not None:
                    w[b"path"] = pa
                if dom is not None:
                    w[b"domain"] = dom
                if fl & 1:
                    w[b"httponly"] = True
                if fl & 2:
                    w[b"secure"] = True
                if fl & 0x70:
                    w[b"samesite"] = SS[fl & 0x70]
                if at != w:
                    why = "attributes %r instead of %r" % (at, w)
                    continue
                if valid < 0:
                    if e is not None:
                        why = "expires %r although it has none" % e
                        continue
                else:
                    t = parse_date(e) if isinstance(e, bytes) else None
                    if t is None or not (t <= t1 if valid == 0 else t0 + valid - 2 <= t <= t1 + valid + 2):
                        why = "expires %r for a validity of %d s" % (e, valid)
                        continue
                hit = v
                break
            if hit is None:
                ctx.violation("cookie", "cookie %r (value of %d bytes) was accepted but %s; sent: %r" % (name, len(val), why, [s[:80] for s in sent]), rep)
            else:
                left.remove(hit)
                ctx.distinct.add(hashlib.md5(hit).digest())
                ctx.count("intact")
        if left and len(left) != len(sent) - len(exp) or (left and len(sent) > len(exp)):
            ctx.violation("extra", "Set-Cookie nobody asked for: %r" % [v[:80] for v in left], rep)
    ctx.sample(texts["1"][:300])
    ctx.require(ctx.extra.get("intact", 0) > ctx.evals, "too few cookies observed")
    ctx.assumptions = ["runs in UTC: the expiry is written in local time with its zone name, which the repository's own test pins",
                       "cookie parts are made of characters a cookie may contain"]
