"""A server is what it was configured to be (harness/conf.c)."""
import os
from .. import build, core, httpresp, srvlib

ONE, LOOP, THR, DET, POLL, POOL, NOPIPE, NOTERM = 1, 3, 4, 8, 0x20, 0x24, 0x40, 0x80


def binary(flavor="asan"):
    return build.harness("conf", flavor, wrap=["accept4"])


class Model:
    """what the calls so far ask for"""
    def __init__(self, flags):
        self.flags = flags
        self.lps = []            # [kind, host, port, index in the driver or None]
        self.known = 0
        self.data = -1
        self.data_f = 0
        self.data_frees = {}
        self.root = None         # None | (k, kind) | "url"
        self.urls = []           # (pattern, k)
        self.errh = None
        self.hnds = set()
        self.busy = set()
        self.up = []             # listen points open now
        self.running = False

    def conflict(self, host, port, taken):
        return any(p == port and (h == host or h == "-" or host == "-") for h, p in taken)

    def bind_all(self):
        taken = set(self.busy)
        ok = []
        for lp in self.lps:
            kind, host, port = lp[0], lp[1], lp[2]
            port = port if port != "-" else "8080"
            if not (host == "-" or host.startswith("127.")) or port == "notaport":
                continue
            if self.conflict(host, port, taken):
                continue
            taken.add((host, port))
            ok.append((kind, host, port))
        return ok


def gen(r, idx):
    run = os.getpid() % 110 + 10
    hosts = ["127.%d.%d.%d" % (run * 2 + idx // 20000, 1 + idx // 80 % 250, 1 + idx % 80 * 3 + i) for i in range(3)]
    mode = r.choice([ONE, LOOP, THR, POLL, POOL, POOL, POLL, 0])
    flags = mode | r.choice([0, 0, DET]) | r.choice([0, 0, 0, NOPIPE]) | r.choice([0, 0, NOTERM])
    m = Model(flags)
    L, X = [], []                # lines, expectations by line

    def emit(line, *exp):
        L.append(line)
        X.extend(exp)

    emit("NEW %d" % flags, ("SIGS new %s %s %s" % ("mine" if flags & NOPIPE else "ignored", *(["mine"] * 2 if flags & NOTERM else ["other"] * 2)),), ("FLAGS", flags))
    nk = [0]

    def k():
        nk[0] += 1
        m.hnds.add(nk[0])
        return nk[0]

    def newport():
        return "@%d" % r.randrange(1, 6)

    def configure():
        x = r.choices(["add", "port", "host", "cert", "getlp", "data", "getd", "root", "rooturl", "urladd", "errh", "addnull", "busy", "unbusy"],
                      [30, 6, 6, 2, 8, 8, 5, 9, 5, 6, 5, 1, 8, 4])[0]
        if x == "add":
            if len(m.lps) > 8:
                return
            kind = "https" if r.random() < 0.06 else "http"
            host = r.choice(hosts) if r.random() < 0.88 else r.choice(["203.0.113.7", "-"])
            port = newport() if r.random() < 0.93 else r.choice(["notaport", "-"])
            if host == "-":
                # every address: a port of its own, not to depend on how the system shares ports between families
                port = "@%d" % (10 + len(m.lps))
            emit("ADD %s %s %s" % (kind, host, port), *([("HCERT 0",)] if kind == "https" else []), ("ADD 0",))
            m.lps.append([kind, host, port, m.known])
            m.known += 1
        elif x == "addnull":
            emit("ADDNULL", ("ADDNULL -1",))
        elif x == "port":
            p = newport()
            if not m.lps:
                p = "@20"
                m.lps.append(["http", "-", p, None])
            elif m.lps[0][1] == "-":
                return
            emit("PORT " + p)
            m.lps[0][2] = p
        elif x == "host":
            h = r.choice(hosts)
            if not m.lps:
                m.lps.append(["http", h, "-", None])
            emit("HOST " + h)
            m.lps[0][1] = h
        elif x == "cert":
            if not m.lps:
                return
            good = r.random() < 0.7
            emit("CERT %s" % ("ok" if good else "bad"), ("CERT 0",) if good else ("CERT !0",))
            if m.lps[0][0] == "http":
                m.lps[0][0] = "https"
                m.lps[0][3] = None
        elif x == "getlp":
            i = r.choice([0, 1, 2, len(m.lps) - 1, len(m.lps), len(m.lps) + 1, -1])
            if 0 <= i < len(m.lps):
                n = m.lps[i][3]
                emit("GETLP %d" % i, ("GETLP %d" % (-1 if n is None else n),))
            else:
                emit("GETLP %d" % i, ("GETLP -2",))
        elif x == "data":
            d = r.choice([-1, 1, 2, 3, 4])
            f = int(r.random() < 0.7)
            if m.data >= 0 and m.data_f:
                m.data_frees[m.data] = m.data_frees.get(m.data, 0) + 1
            m.data, m.data_f = d, f
            emit("DATA %d %d" % (d, f))
        elif x == "getd":
            emit("GETD", ("GETD %d 1" % m.data,))
        elif x == "root":
            kk, kind = k(), r.choice("aaan")
            emit("ROOT %d %s" % (kk, kind), ("ROOT %d 1" % (m.root is not None),))
            m.root = (kk, kind)
            m.urls = []
        elif x == "rooturl":
            emit("ROOTURL", ("ROOTURL %s" % ("new" if m.root is None else "same" if m.root == "url" else "null"),))
            if m.root is None:
                m.root = "url"
        elif x == "urladd":
            if m.root is not None and m.root != "url":
                return
            if m.root is None:
                emit("ROOTURL", ("ROOTURL new",))
                m.root = "url"
            kk = k()
            pat = r.choice(["p%d" % kk, "", "q"])
            if pat == "":
                emit("URLADD ^$ %d" % kk, ("URLADD 1",))
            else:
                emit("URLADD ^%s$ %d" % (pat, kk), ("URLADD 1",))
            m.urls.append((pat, kk))
        elif x == "errh":
            kk = k()
            emit("ERRH %d" % kk)
            m.errh = kk
        elif x == "busy":
            h, p = r.choice(hosts), newport()
            if (h, p) not in m.busy and len(m.busy) < 4 and not m.conflict(h, p, [(a, b) for _, a, b in m.up]):
                emit("BUSY %s %s" % (h, p), ("BUSY 1",))
                m.busy.add((h, p))
        elif x == "unbusy":
            emit("UNBUSY")
            m.busy = set()

    def answer(path):
        """(who answers, with which code)"""
        if m.root is None:
            return ("e", m.errh) if m.errh else None
        if m.root == "url":
            for pat, kk in m.urls:
                if pat == path:
                    return ("a", kk)
            return ("e", m.errh) if m.errh else ("404", 0)
        kk, kind = m.root
        if kind == "a":
            return ("a", kk)
        return ("e", m.errh) if m.errh else ("404", 0)

    def probe(kind, host, port, open_):
        h = hosts[0] if host == "-" else host
        if kind == "https":
            emit("PROBE %s %s" % (h, port), ("tls",) if open_ else ("refused",))
            return
        path = r.choice([""] + [p for p, _ in m.urls]) if m.urls else r.choice(["", "x"])
        if open_ and answer(path) is not None and r.random() < 0.3:
            emit("PROBE2 %s %s %s" % (h, port, path), ("answer", answer(path), m.data, 1 if flags & ONE else 2))
            return
        emit("PROBE %s %s %s" % (h, port, path), ("answer", answer(path), m.data) if open_ else ("refused",))

    one = flags & ONE
    for life in range(r.choice([1, 1, 1, 2, 2, 3])):
        for _ in range(r.randrange(0 if life else 2, 9)):
            configure()
        if not m.lps:
            emit("HOST " + hosts[0])
            m.lps.append(["http", hosts[0], "-", None])
        if m.root is None and r.random() < 0.9:
            kk = k()
            emit("ROOT %d a" % kk, ("ROOT 0 1",))
            m.root = (kk, "a")
        up = m.bind_all()
        emit("LISTEN", ("LISTEN error",) if not up else ("LISTEN up",))
        closed = [(kind, h, p) for kind, h, p, _ in m.lps if (h == "-" or h.startswith("127.")) and p != "notaport" and not m.conflict(h, p if p != "-" else "8080", [(a, b) for _, a, b in up] + list(m.busy))]
        if not up:
            for c in closed[:2]:
                probe(c[0], c[1], c[2] if c[2] != "-" else "8080", False)
            continue
        m.up = up
        emit("INH", ("INH 0",))
        if one:
            first = up[0]
            n = 1 if mode == ONE else r.choice([1, 2, 3])
            ended = False
            if r.random() < 0.15 and not flags & DET:
                n = 0
            for _ in range(n):
                probe(first[0], first[1], first[2], True)
            ended = mode == ONE and n > 0
        else:
            for _ in range(r.randrange(1, 4)):
                if r.random() < 0.3:
                    t = r.choice(up)
                    probe(*t, True)
                else:
                    for t in up:
                        probe(*t, True)
                if r.random() < 0.12:
                    # connections that fail before they are taken: the next ones are served
                    e = r.choice(["ECONNABORTED", "EPROTO", "EMFILE", "ENFILE", "ENOBUFS", "EINTR"])
                    t = r.choice(up)
                    emit("ACCFAIL %s %d" % (e, r.choice([1, 1, 3])))
                    if e in ("ECONNABORTED", "EPROTO"):
                        for _ in range(int(L[-1][-1])):
                            emit("PROBE %s %s" % (hosts[0] if t[1] == "-" else t[1], t[2]), ("aborted",))
                    probe(*t, True)
                if r.random() < 0.5:      # while it runs
                    x = r.choice(["data", "getd", "getlp"])
                    if x == "data":
                        d = r.choice([-1, 1, 2, 3])
                        if m.data >= 0 and m.data_f:
                            m.data_frees[m.data] = m.data_frees.get(m.data, 0) + 1
                        m.data, m.data_f = d, 1
                        emit("DATA %d 1" % d)
                    elif x == "getd":
                        emit("GETD", ("GETD %d 1" % m.data,))
                    else:
                        emit("GETLP %d" % len(m.lps), ("GETLP -2",))
            ended = False
        if ended:
            emit("WAIT", ("WAIT 1",))
        elif not flags & NOTERM and r.random() < 0.4:
            emit("SIG %s" % r.choice(["TERM", "INT"]))
            emit("WAIT", ("WAIT 1",))
        elif r.random() < 0.12 and flags & DET:
            m.up = []
            break                   # freed while it runs
        else:
            emit("STOP", ("WAIT 1",))
        m.up = []
        if flags & DET and not ended and L[-2].startswith("SIG"):
            emit("STOP", ("WAIT 1",))    # a signal does not wait for the listener
        elif flags & DET and ended:
            emit("STOP", ("WAIT 1",))
        for t in up[:3]:
            probe(*t, False)
    emit("FREE", ("SIGS free %s %s" % ("mine" if flags & NOPIPE else "ignored", "mine mine" if flags & NOTERM else "default default"),))
    if m.data >= 0 and m.data_f:
        m.data_frees[m.data] = m.data_frees.get(m.data, 0) + 1
    X.append(("FREED data%s hnd%s" % ("".join(" %d:%d" % (a, b) for a, b in sorted(m.data_frees.items())), "".join(" %d:1" % a for a in sorted(m.hnds))),))
    return L, X, (mode, flags & DET, len(m.lps))


def check(ctx, bad, lines, X, flags):
    got = [l for l in lines if not l.startswith("RES ")]
    for i, x in enumerate(X):
        if i >= len(got):
            bad("lost", "no line for %r" % (x,))
            return
        g = got[i]
        if x[0] == "FLAGS":
            v = int(g.split(" ")[1])
            if v & 0xff != x[1] or v & 0x2000:
                bad("flags", "created with %#x, has %#x" % (x[1], v))
        elif x[0] == "CERT !0":
            if not g.startswith("CERT ") or g == "CERT 0":
                bad("cert", "a missing certificate gave %r" % g)
        elif x[0] == "IDLE":
            p = g.split(" ")
            if p[:2] == ["IDLE", "refused"] or len(p) != 3:
                bad("idle", "%r" % g)
            elif p[1] != "1" or int(p[2]) > x[1] * 1.5 + 2500:
                bad("idle-late", "an idle connection was %s after %s ms, the timeout is %d" % ("closed" if p[1] == "1" else "still open", p[2], x[1]))
            elif int(p[2]) < x[1] * 0.75 - 100:
                bad("idle-early", "an idle connection was closed after %s ms, the timeout is %d" % (p[2], x[1]))
            ctx.count("idle_connections")
        elif x[0] == "refused":
            ctx.count("closed_places_probed")
            if g != "PROBE refused":
                bad("open", "step %d: connected where nothing listens: %s" % (i, g[:200]))
        elif x[0] == "aborted":
            ctx.count("aborted_connections")
            if g not in ("PROBE end ", "PROBE end"):
                bad("aborted", "step %d: %s" % (i, g[:200]))
        elif x[0] == "tls":
            ctx.count("tls_places_probed")
            p = g.split(" ")
            if g == "PROBE refused" or len(p) > 2 and bytes.fromhex(p[2]).startswith(b"HTTP/"):
                bad("tls", "step %d: an HTTPS listen point: %s" % (i, g[:200]))
        elif x[0] == "answer":
            p = g.split(" ")
            if p[0:2] != ["PROBE", "end"]:
                bad("unanswered", "step %d: %s" % (i, g[:300]))
                continue
            try:
                a = httpresp.parse(bytes.fromhex(p[2] if len(p) > 2 else ""), "GET", len(x) <= 3)
            except httpresp.Bad as e:
                if x[1] is None:
                    continue
                bad("unreadable", "step %d: %s" % (i, e))
                continue
            ctx.count("answers")
            if len(x) > 3:               # two requests, one after the other
                n = bytes.fromhex(p[2]).count(b"HTTP/1.1 ")
                if n != x[3]:
                    bad("keep-alive", "step %d: %d answers on one connection, expected %d" % (i, n, x[3]))
                ctx.count("second_requests")
                if n == 2:
                    try:
                        a2 = httpresp.parse(a.rest, "GET", True)
                        if (a2.code, a2.body) != (a.code, a.body):
                            bad("keep-alive", "step %d: second answer %d %r, the first was %d %r" % (i, a2.code, a2.body[:100], a.code, a.body[:100]))
                    except httpresp.Bad as e:
                        bad("unreadable", "step %d: second answer: %s" % (i, e))
            if x[1] is None:             # no handler at all
                if a.code < 400:
                    bad("nobody", "step %d: answered %d with no handler" % (i, a.code))
                continue
            who, kk = x[1]
            if who == "404":
                if a.code != 404:
                    bad("answer", "step %d: %d instead of not found" % (i, a.code))
                continue
            w = b"%s%d data=%d inh=0" % (who.encode(), kk, x[2])
            if a.body != w or (who == "a") != (a.code == 200):
                k = "inherited" if a.body.rsplit(b" ", 1)[0] == w.rsplit(b" ", 1)[0] else "answer"
                if who == "e" and a.body == w:
                    continue             # an error handler says which code it wants
                bad(k, "step %d: answered %d %r, expected %r" % (i, a.code, a.body[:100], w))
        elif g != x[0]:
            bad(x[0].split(" ")[0].lower(), "step %d: %r, expected %r" % (i, g[:200], x[0]))
            if x[0].startswith("LISTEN"):
                return


def run(ctx):
    r = ctx.rng
    ctx.rule = ("histories of configuration calls (listen points, host, port, certificate, user data, root, url and error handlers), "
                "starts, requests at every address, stops by call or signal, restarts and frees, in every mode, with some places taken or impossible; each observed answer, refusal, returned value, "
                "free, signal disposition and descriptor compared with a model of what was asked; distinct = distinct scripts")
    ctx.assumptions = ["IPv4 loopback addresses; a listen point on every address has a port of its own", "no other program takes a free port between the choice and the use"]
    b = binary()
    cert, key = ctx.scratch + "/cert.pem", ctx.scratch + "/key.pem"
    rc, o, e = core.run_tool(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", key, "-out", cert, "-days", "30", "-subj", "/CN=localhost"], 60)
    if rc != 0:
        raise core.HarnessError("no certificate: %r" % e[-300:])
    cases, exp = [], {}
    for i in range(ctx.n(2400, 25000)):
        L, X, d = gen(r, i)
        cases.append(("c%d" % i, "\n".join(L)))
        exp["c%d" % i] = (X, d)
        ctx.distinct.add("\n".join(L).replace(" 127.", " "))
    # connections on which nothing comes
    for i, (mode, ms) in enumerate([(mo, t) for mo in (LOOP, POLL, THR, POOL) for t in (None, 1200, 1200)]):
        h = "127.254.1.%d" % (i + 1)
        L = ["NEWDEF %d" % mode] + (["TIMEOUT %d" % ms] if ms else []) + ["ADD http %s @1" % h, "ROOT 1 a", "LISTEN", "IDLE %s @1 16000" % h, "STOP", "FREE"]
        cases.insert(i * 20, ("i%d" % i, "\n".join(L)))
        exp["i%d" % i] = ([("ADD 0",), ("ROOT 0 1",), ("LISTEN up",), ("IDLE", ms or 5000), ("WAIT 1",), ("SIGS free ignored default default",), ("FREED data hnd 1:1",)], (mode, 0, 1))
    texts = dict(cases)
    res = core.run_cases(ctx, b, cases, args=[cert, key], timeout=500)
    live = srvlib.die_report(ctx, res, cases)
    for cid, lines in live.items():
        X, d = exp[cid]
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])

        def bad(k, t):
            ctx.violation(k, "case %s: %s" % (cid, t), rep)
        ctx.evals += 1
        check(ctx, bad, lines, X, d)
        last = [l for l in lines if l.startswith("RES ")]
        if last:
            v = dict((a.split("=")[0], int(a.split("=")[1])) for a in last[0].split(" ")[1:])
            if v["fds"]:
                bad("fds", "left open: %r" % v)
            if v["allocs"]:
                bad("leak", "left allocated: %r" % v)
        ctx.count("servers")
    # nothing configured
    for mode in (POOL, LOOP):
        case = ("default", "FREEPORT 8080\nNEWDEF %d\nROOT 1 a\nLISTEN\nPROBE 127.0.0.1 8080\nSTOP\nPROBE 127.0.0.1 8080\nFREE" % mode)
        for lines in srvlib.die_report(ctx, core.run_cases(ctx, b, [case], args=[cert, key]), [case]).values():
            if lines[0] != "FREEPORT 1":
                ctx.count("default_port_taken")
                continue
            check(ctx, lambda k, t: ctx.violation("default-" + k, t, "CASE %s\n%s\nEND\n" % case), lines[1:],
                  [("ROOT 0 1",), ("LISTEN up",), ("answer", ("a", 1), -1), ("WAIT 1",), ("refused",), ("SIGS free ignored default default",), ("FREED data hnd 1:1",)], None)
    ctx.require(ctx.extra.get("answers", 0) > 1000, "answers: %s" % ctx.extra.get("answers"))
    ctx.require(ctx.extra.get("closed_places_probed", 0) > 300, "closed: %s" % ctx.extra.get("closed_places_probed"))
