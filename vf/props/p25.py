"""Protected handlers run only for authenticated requests."""
import base64, re
from .. import build, core, httpresp

PRINT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
SERVICES = ["svc", "svc2", "login", "sv", "svc-extra-long-service-name"]

MIX = ("auth,noauth",)      # kinds of handlers also run concurrently (harness/mix.h)


def hx(s):
    return (s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")).hex()


def word(r, n=None):
    n = n if n is not None else r.choice([1, 3, 5, 8, 12, 40])
    return "".join(r.choice(PRINT) for _ in range(n))


def secret(r):
    x = r.random()
    if x < 0.5:
        return word(r).encode()
    if x < 0.6:
        return b""
    if x < 0.75:
        return (word(r) + ":" + word(r)).encode()
    if x < 0.85:
        return bytes(r.randrange(1, 256) for _ in range(r.choice([1, 2, 7, 64, 255, 256, 1000, 4000])))
    return r.choice([b" ", b":", b"::", b"%00", b"pass\nword", b"p\xc3\xa1ss", b"=" * 5, b"x" * 511, b"y" * 512, b"z" * 513, b"+/=="])


def gen(r):
    """-> (lines, handlers, requests)"""
    nh = r.choice([1, 2, 2, 3])
    svcs = [r.choice(SERVICES[:2 + (r.random() < 0.5) * 3]) for _ in range(nh)]
    handlers, lines, accts = [], [], []
    for i in range(nh):
        realm = r.choice(["Realm", "A long realm with spaces", word(r, r.choice([1, 30, 200, 236, 237, 238, 239, 240, 241, 255, 256, 257, 1000, 5000])), "", "r%s%d", "\u00e1mbito"])
        handlers.append(("%s" % "abc"[i], realm, svcs[i]))
        lines.append("HND %s. %s. %s." % (hx("^%s/" % "abc"[i]), hx(realm), hx(svcs[i])))
    for s in sorted(set(svcs)):
        for u in range(r.randrange(1, 4)):
            user = r.choice(["root", "bob", "alice", word(r), word(r, r.choice([63, 64, 65, 255, 256, 257, 1000])), "us er", "", "\u00fc"])
            if any(a[0] == s and a[1] == user.encode() for a in accts):
                continue
            st = r.choice(["ok", "ok", "ok", "ok", "start", "auth", "acct"])
            accts.append((s, user.encode(), secret(r), st))
    for s, u, p, st in accts:
        lines.append("ACCT %s. %s. %s. %s" % (hx(s), hx(u), hx(p), st))
    msgs = r.choice([1, 1, 1, 1, 2, 3, 8, 0])
    lines.append("MSGS %d" % msgs)
    reqs = []
    for i in range(r.randrange(1, 12)):
        h = r.randrange(nh)
        s = handlers[h][2]
        mine = [a for a in accts if a[0] == s]
        q = {"h": h, "hdr": None, "creds": None, "sid": None}
        x = r.random()
        if x < 0.36:
            a = r.choice(mine)
            q["creds"] = (a[1], a[2])
        elif x < 0.62:
            a = r.choice(accts)
            u, p = a[1], a[2]
            y = r.random()
            if y < 0.2:
                p = p + b"x"
            elif y < 0.4:
                p = p[:-1]
            elif y < 0.5:
                p = b""
            elif y < 0.6:
                u = u + b"x"
            elif y < 0.7:
                u = u[:-1]
            elif y < 0.8:
                p = p.swapcase()
            elif y < 0.9:
                u, p = p.replace(b":", b""), u
            q["creds"] = (u, p)
        elif x < 0.86:
            a = r.choice(accts)
            up = a[1] + b":" + a[2]
            b64 = base64.b64encode(up)
            q["hdr"] = r.choice([
                b"Basic", b"Basic ", b"Basic  ", b"Basic  " + b64, b"basic " + b64, b"BASIC " + b64, b"Bearer " + b64, b"Token " + b64, b"Basix " + b64, b"Basic:" + b64, b"12345 " + b64, b"Digest username=\"root\"", b64, b"Basic " + up.replace(b"\n", b"").replace(b"\r", b""),
                b"Basic " + b64[:-1], b"Basic " + b64[:-2], b"Basic " + b64[:-3], b"Basic " + b64 + b"=", b"Basic " + b64 + b"====", b"Basic " + b64.rstrip(b"="), b"Basic =" + b64,
                b"Basic " + b"=" * r.randrange(1, 9), b"Basic " + b64 + b"!", b"Basic !!!!" + b64, b"Basic \xff\xfe\x80", b"Basic " + bytes(r.randrange(128, 256) for _ in range(r.randrange(1, 40))),
                b"Basic " + base64.b64encode(a[1]), b"Basic " + base64.b64encode(a[1] + b"\0:" + a[2]), b"Basic " + base64.b64encode(a[1] + b"\0" + a[2]), b"Basic " + base64.b64encode(b":"),
                b"Basic " + base64.b64encode(b"\0"), b"Basic " + base64.b64encode(b"\0:" + a[2]), b"Basic " + base64.b64encode(up + b"\0"), b"Basic " + base64.b64encode(up + b"\0junk"),
                b"Basic " + base64.b64encode(a[2]), b"Basic A", b"Basic AB", b"Basic ABC", b"Basic ABCD", b"Basic A===", b"Basic :", b"Basic root:", b"Basicx " + b64, b"Basic\t" + b64,
                b"Basic " + base64.b64encode(r.randbytes(r.randrange(1, 4000))), b"Basic " + b"A" * r.choice([8180, 8185, 8186, 8191, 8192, 9000, 12000]), b"Basic " + b"x" * r.randrange(1, 300),
                b"Basic " + b64[:4] + b" " + b64[4:], b"B", b"", b"Bas", b"Basic " + r.choice([b"%", b"%s%n", b"\x01"])])
        y = r.random()
        if y < 0.5 and i:
            j = r.randrange(i)
            q["sid"] = ("of", j)
        elif y < 0.65:
            q["sid"] = ("raw", r.choice(["x", "", word(r, 32), "a" * 32, "null", "0", "pam_logged_in"]))
        elif y < 0.75 and i:
            q["sid"] = ("mut", r.randrange(i), r.choice(["x", "suffix", "@"]))
        extra = []
        path = "/%s/%s" % (handlers[h][0], r.choice(["", "x", "x/y"]))
        if r.random() < 0.25:
            path += "?" + r.choice(["pam_logged_in=root&username=root", "pam_logged_in=1&pam_service=" + s, "username=bob", "sessionid=x"])
        if r.random() < 0.2:
            extra.append(r.choice([b"pam_logged_in: root", b"pam_service: " + s.encode(), b"username: root", b"X-User: root"]))
        body = b""
        method = r.choice([b"GET", b"GET", b"GET", b"HEAD", b"POST"])
        if method == b"POST":
            body = r.choice([b"", b"pam_logged_in=root&username=root&pam_service=" + s.encode()])
            extra.append(b"Content-Type: application/x-www-form-urlencoded")
            extra.append(b"Content-Length: %d" % len(body))
        hd = []
        if q["creds"] is not None:
            u, p = q["creds"]
            if b":" in u:
                q["creds"] = None
                q["odd"] = True
            q["hdr"] = b"Basic " + base64.b64encode(u + b":" + p)
        if q["hdr"] is not None:
            hd.append(b"Authorization: " + q["hdr"])
        q["ck"] = None
        if q["sid"]:
            v = q["sid"]
            c = "@@SID%d@@" % v[1] if v[0] == "of" else v[1] if v[0] == "raw" else ("@@SID%d@@" % v[1]) + ("" if v[2] == "@" else v[2])
            if v[0] == "mut" and v[2] == "@":
                c = "@" + c
            q["ck"] = v
            hd.append(("Cookie: " + r.choice(["", "a=b; "]) + "sessionid=" + c).encode())
        q["head"] = method == b"HEAD"
        raw = b"%s %s HTTP/1.1\r\n%s\r\n" % (method, path.encode(), b"".join(x + b"\r\n" for x in r.sample(hd + extra, len(hd + extra)))) + body
        q["raw"] = raw
        lines.append("REQ %s" % raw.hex())
        reqs.append(q)
    return lines, handlers, reqs, accts, msgs


def judge(ctx, c, out):
    lines, handlers, reqs, accts, msgs = c
    groups, cur = [], []
    bal = None
    for l in out:
        if l.startswith("BAL "):
            bal = l
        elif l == "ENDCASE":
            continue
        else:
            cur.append(l)
            if l.startswith("OUT "):
                groups.append(cur)
                cur = []
    if bal != "BAL heap=0 fds=0 pam=0":
        return "balance", "not everything was released: %s" % bal
    if len(groups) != len(reqs):
        raise core.HarnessError("answers %d of %d" % (len(groups), len(reqs)))
    sids, sess = {}, {}            # request -> sid; sid -> {service: user, None: (service, user)}
    for i, (q, g) in enumerate(zip(reqs, groups)):
        buf = bytes.fromhex(g[-1][4:].strip())
        svc, realm = handlers[q["h"]][2], handlers[q["h"]][1]
        what = "request %d %r" % (i, q["raw"][:200])
        ins = [l.split() for l in g if l.startswith("INSIDE")]
        pam = [[bytes.fromhex(x.rstrip(".")) if k else x for k, x in enumerate(l.split()[1:5])] + [int(l.split()[5])] for l in g if l.startswith("PAM ")]
        if not buf:
            return "no-answer", "%s: nothing was answered" % what
        try:
            o = httpresp.parse(buf, "HEAD" if q["head"] else "GET", True)
        except httpresp.Bad as e:
            return "bad-answer", "%s: %s" % (what, e)
        sid = None
        if q["ck"] and q["ck"][0] == "of":
            sid = sids.get(q["ck"][1])
        state = sess.get(sid, {}) if sid else {}
        # what the service accepted in this request
        accepted = None
        for stage, s, u, p, rc in pam:
            ctx.count("service_calls")
            if s.decode() != svc:
                return "service", "%s: the service %r was asked, not %r" % (what, s, svc)
            if stage == "auth":
                if msgs and q["creds"] is not None and len(q["hdr"]) < 8000 and (u, p) != q["creds"]:
                    return "credentials", "%s: the service was given %r, not %r" % (what, (u, p), q["creds"])
                if q["hdr"] is None:
                    return "credentials", "%s: the service was given %r with no credentials in the request" % (what, (u, p))
                last = (u, p, rc)
                if q["hdr"][:5].lower() != b"basic":
                    return "scheme", "%s: the service was given %r out of %r" % (what, (u, p), q["hdr"][:60])
            if stage == "acct" and rc == 0 and last[2] == 0:
                accepted = last[0]
        if len(ins) > 1:
            return "twice", "%s: the protected handler ran %d times" % (what, len(ins))
        canonical = q["creds"] is not None and len(q["hdr"]) < 8000 and 0 not in b"".join(q["creds"])
        good = canonical and msgs > 0 and any(a[0] == svc and (a[1], a[2]) == q["creds"] and a[3] == "ok" for a in accts)
        lastlog = state.get(None)
        if ins:
            ctx.count("entered")
            user = bytes.fromhex(ins[0][2].rstrip("."))
            if ins[0][1] != "h%d" % q["h"]:
                return "other", "%s: handler %s ran" % (what, ins[0][1])
            if accepted is not None:
                if user != accepted:
                    return "user", "%s: the handler sees user %r, %r was authenticated" % (what, user, accepted)
                ctx.count("entered_by_credentials")
            elif svc in state:
                ctx.count("entered_by_session")
                if lastlog == (svc, user) or user == state[svc]:
                    pass
                else:
                    return "user", "%s: the handler sees user %r, the session is of %r" % (what, user, state[svc])
            else:
                return "gate", "%s: the protected handler ran (as %r); the service accepted nobody for it: %r, session %r" % (what, user, pam, state)
            if not q["head"] and o.body != b"PROTECTED-h%d" % q["h"]:
                return "content", "%s: body %r" % (what, o.body[:100])
        else:
            ctx.count("challenged")
            if good:
                return "refused", "%s: valid credentials for %s did not get in: %r" % (what, svc, pam)
            if lastlog and lastlog[0] == svc:
                return "refused", "%s: the session %r is logged in and did not get in" % (what, sid)
            if b"PROTECTED" in buf:
                return "content", "%s: protected content was sent" % what
            if q["hdr"] is not None and len(q["raw"]) > 8000 and o.code in (400, 413, 431, 500):
                continue
            if o.code != 401:
                return "status", "%s: answered %d, not a challenge" % (what, o.code)
            w = [v for k, v in o.headers if k.lower() == b"www-authenticate"]
            if w != [b'Basic realm="' + realm.encode() + b'"']:
                return "challenge", "%s: challenge %r for realm %r" % (what, [x[:300] for x in w], realm[:300])
        m = re.search(rb"(?im)^set-cookie: sessionid=([^;\r\n]*)", buf)
        if m:
            sid = m.group(1)
        elif sid is None and ins and accepted is not None:
            pass
        if sid:
            sids[i] = sid
            if accepted is not None and ins:
                st = sess.setdefault(sid, {})
                st[svc] = accepted
                st[None] = (svc, accepted)
    return None


def run(ctx):
    binary = build.harness("auth")
    n = ctx.n(2500, 40000)
    cases = {}
    for i in range(n):
        cases["a%d" % i] = gen(ctx.rng)
    res = core.run_cases(ctx, binary, [(k, "\n".join(c[0])) for k, c in cases.items()], timeout=600)
    ctx.rule = "a request to a protected handler, judged: who entered, as whom, what the service was asked, the challenge"
    for k, c in cases.items():
        out = res.get(k)
        if out is None:
            continue
        ctx.evals += len(c[2])
        ctx.distinct.add(hash(tuple(c[0])))
        text = "\n".join(c[0])
        if isinstance(out, core.Died):
            ctx.violation("died:" + out.key, core.san_excerpt(out.err) if out.kind != "hang" else "no answer in time", text)
            continue
        v = judge(ctx, c, out)
        if v:
            ctx.violation(v[0], v[1], text)
        elif len(ctx.samples) < 6:
            ctx.sample({"case": k, "requests": len(c[2]), "first": repr(c[2][0]["raw"][:160])})
    e = ctx.extra
    for x in ("entered_by_credentials", "entered_by_session", "challenged", "service_calls"):
        ctx.require(e.get(x, 0) > n // 4, "too few %s: %s" % (x, e.get(x)))
