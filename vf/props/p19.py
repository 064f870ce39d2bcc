"""Session data follows the client and only the client."""
import hashlib, os
from .. import core, srvlib, fakeredis, httpgen as g

ALNUM = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")

MIX = ("session",)      # kinds of handlers also run concurrently (harness/mix.h)


def text(r, n, lo=0):
    pool = [b"a", b"Z", b"0", b" ", b'"', b"\\", b"/", b"\n", b"\r", b"\t", b"\x01", b"\x7f", b"{", b"}", b"[", b",", b":", b"'", b"%", b"&",
            b"<", "é".encode(), "€".encode(), "😀".encode(), b"\\u0041", b"null", b"\x1f"]
    return b"".join(r.choice(pool) for _ in range(r.randrange(lo, n)))


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    red = fakeredis.FakeRedis()
    drops = [fakeredis.FakeRedis(drop_after=k) for k in (0, 1, 2, 3, 5, 9)]
    ctx.rule = ("histories of 5..40 requests by up to 5 clients with their own cookie jars against the memory, sqlite3 and redis backends: session reads, "
                "writes, removals, whole-session removal, whole dumps, requests with no, forged, removed, earlier, foreign and several session cookies, "
                "kept-alive and separate connections, backend reopened from its database; what every handler reads and every Set-Cookie is compared with "
                "a model store; non-trivial = a read that had to return data stored by an earlier request")
    cases, meta = [], {}
    kinds = ["mem", "sqlite", "redis"]
    N = ctx.n(900, 9000)
    for i in range(N):
        kind = kinds[i % 3]
        spec = {"mem": "mem", "sqlite": "sqlite " + os.path.join(ctx.scratch, "s%d.db" % i), "redis": "redis %d" % red.port}[kind]
        if kind == "sqlite" and r.random() < 0.5:
            spec = "sqlite :memory:"
        lines = ["SESSIONS " + spec]
        exp = []
        keys = [b"k%d" % j for j in range(4)] + [text(r, 8, 1) for _ in range(2)]
        nc = r.randrange(1, 6)
        for _ in range(r.randrange(5, 40)):
            if kind != "mem" and "memory" not in spec and r.random() < 0.05:
                lines.append("FREE")
                lines.append("SESSIONS " + spec)
                exp.append(None)
            c = r.randrange(nc)
            how = r.choices(["own", "none", "forged", "stale", "other", "many", "manyown", "suffix", "suffixown"], [60, 6, 5, 6, 6, 5, 8, 4, 5])[0]
            forged = bytes(r.choice(list(ALNUM)) for _ in range(r.choice([1, 8, 31, 32, 33, 100])))
            if r.random() < 0.3:
                forged = r.choice([b"", b"..", b"' OR 1=1 --", b"%s%n", b"*", b"sessionid"])
            o = r.randrange(nc)
            # cookie header as list of tokens: bytes or ("jar", k) ; candidates in order
            own, old, oth = ("jar", c), ("jar", c + 16), ("jar", o)
            pre = r.choice([[], [], [b"a=b; "], [b"lang=en; theme=dark; "]])
            post = r.choice([[], [], [b"; x=y"]])
            if how == "none":
                cand, tok = [], []
            elif how == "own":
                cand, tok = [own], pre + [b"sessionid=", own] + post
            elif how == "forged":
                cand, tok = [forged], pre + [b"sessionid=", forged] + post
            elif how == "stale":
                cand, tok = [old], pre + [b"sessionid=", old] + post
            elif how == "other":
                cand, tok = [oth], pre + [b"sessionid=", oth] + post
            elif how == "many":
                cand, tok = [forged, old, own], pre + [b"sessionid=", forged, b"; sessionid=", old, b"; sessionid=", own] + post
            elif how == "manyown":
                cand, tok = [own, old], pre + [b"sessionid=", own, b"; sessionid=", old] + post
            elif how == "suffixown":
                cand, tok = [own], pre + [r.choice([b"mysessionid=", b"Xsessionid=", b"2sessionid="]), r.choice([forged, oth]), b"; sessionid=", own] + post
            else:
                cand, tok = [], [b"mysessionid=", own, b"; y=z"]
            head = b"GET /s HTTP/1.1\r\n"
            toks = [head + b"Host: h\r\n" + (b"Cookie: " if tok else b"")] + tok + [(b"\r\n" if tok else b"") + b"\r\n"]
            ops = []
            for _ in range(r.randrange(0, 6)):
                k = r.choice(keys)
                op = r.choices(["get", "set", "del", "free", "dump"], [30, 40, 12, 4, 14])[0]
                v = text(r, r.choice([3, 10, 60])) if op == "set" else None
                if op == "set" and r.random() < 0.02:        # a large value
                    v = text(r, 60, 20) * r.choice([30, 70, 130, 500, 1700])
                ops.append((op, k, v))
            lines.append("NOH")
            for op, k, v in ops:
                lines.append({"get": "H sget " + k.hex(), "set": "H sset %s %s" % (k.hex(), (v or b"").hex()), "del": "H sdel " + k.hex(),
                              "free": "H sfree", "dump": "H sdump"}[op])
            lines.append("H w 6f6b")
            if r.random() < 0.4 or not exp or exp[-1] is None:
                lines.append("CONN")
            lines.append("JAR %d" % c)
            lines.append("RDT " + " ".join(("@%d" % t[1]) if isinstance(t, tuple) else t.hex() for t in toks if t != b""))
            exp.append((c, cand, ops, how))
        lines.append("FREE")
        lines.append("SESSIONS mem")
        cases.append((str(i), "\n".join(lines)))
        meta[str(i)] = (kind, exp)
    # backends that stop answering, at every point of a history
    for j in range(ctx.n(36, 200)):
        lines = ["SESSIONS redis %d" % drops[j % len(drops)].port]
        for k in range(4):
            lines += ["CONN", "JAR 0", "NOH", "H sset 61 62", "H sget 61", "H sdump"] + (["H sfree"] if r.random() < 0.3 else []) + ["H w 6f6b"]
            lines += ["RDT " + b"GET / HTTP/1.1\r\nCookie: sessionid=".hex() + " @0 " + b"\r\n\r\n".hex()]
        lines += ["FREE", "SESSIONS mem"]
        cases.append(("drop%d" % j, "\n".join(lines)))
    cases.append(("ids", "SIDS %d" % ctx.n(4000, 100000)))
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases)
    texts = dict(cases)
    for cid, ls in live.items():
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        if cid == "ids":
            ids = [bytes.fromhex(l.split(" ")[1]) for l in ls if l.startswith("GID ")]
            if len(set(ids)) != len(ids):
                ctx.violation("id:repeat", "generated session ids repeat", rep)
            for x in ids:
                if len(x) < 16 or not set(x) <= ALNUM:
                    ctx.violation("id:form", "session id %r" % x, rep)
                    break
            # every position carries randomness: with thousands of ids, far more than a few characters each
            cols = [len(set(x[p:p + 1] for x in ids)) for p in range(min(map(len, ids)))] if ids else []
            if cols and sum(cx >= 16 for cx in cols) < 16:
                ctx.violation("id:entropy", "distinct characters per position of %d ids: %s" % (len(ids), cols), rep)
            # ... and no position follows from another
            twins = [(p, q) for p in range(len(cols)) for q in range(p) if all(x[p] == x[q] for x in ids)]
            if twins:
                ctx.violation("id:entropy", "positions always equal in %d ids: %s" % (len(ids), twins[:8]), rep)
            ctx.count("ids", len(ids))
            continue
        ctx.evals += 1
        o = srvlib.Obs(ls)
        if o.res.get("allocs") or o.res.get("fds"):
            ctx.violation("leak:%s" % ("drop" if cid.startswith("drop") else meta[cid][0]), "after the history: %s" % o.res, rep)
        if cid.startswith("drop"):
            ctx.count("dropped_backends")
            continue
        kind, exp = meta[cid]
        check(ctx, kind, exp, ls, rep)
    ctx.sample(texts["0"][:400])
    if red.bad:
        ctx.count("unknown_redis_commands", len(red.bad))
    ctx.require(ctx.extra.get("reads_of_stored", 0) > ctx.n(800, 800), "too few stored reads observed")
    ctx.require(red.cmds > 300 and ctx.extra.get("ids", 0) > 1000, "redis backend hardly used")
    ctx.assumptions = ["the redis server is a stand-in answering HEXISTS, HGET, HSET and HDEL", "one request at a time (concurrency is P20)"]


def check(ctx, kind, exp, ls, rep):
    store = {}
    jars = {}
    everseen = set()
    # split observed lines per request
    groups, cur = [], None
    for l in ls:
        if l == "REQ" or l.startswith("REQ "):
            cur = []
            groups.append(cur)
        elif cur is not None:
            cur.append(l)
    exp = [e for e in exp if e is not None]
    if len(groups) != len(exp):
        ctx.violation("lost", "%d requests sent, %d handled" % (len(exp), len(groups)), rep)
        return
    for n, (e, gr) in enumerate(zip(exp, groups)):
        c, cand, ops, how = e
        # "JAR" saved the previous id of this client before the request
        jars[c + 16] = jars.get(c)
        ids = [(jars.get(x[1]) or b"") if isinstance(x, tuple) else x for x in cand]
        obs = [l.split(" ") for l in gr]
        sid, data, pos = None, None, 0
        where = "%s backend, request %d (%s cookie)" % (kind, n + 1, how)
        fresh_unknown = False

        def attach():
            nonlocal sid, data, fresh_unknown
            if data is not None:
                return
            for x in ids:
                if x in store:
                    sid, data = x, store[x]
                    return
            sid, data, fresh_unknown = None, {}, True
        q = [l for l in obs if l[0] in ("sget", "s", "sid")]
        bad = False
        for op, k, v in ops:
            if op == "get":
                attach()
                if not q or q[0][0] != "sget":
                    bad = True
                    break
                got = srvlib.unhex(q.pop(0)[1])
                want = data.get(k)
                if got != want:
                    ctx.violation("value:%s" % kind, "%s: read %r of key %r, stored was %r" % (where, got, k, want), rep)
                    return
                if want is not None and not fresh_unknown:
                    ctx.count("reads_of_stored")
                    ctx.distinct.add(hashlib.md5(k + b"/" + want).digest())
                elif want is None:
                    ctx.count("reads_of_nothing")
            elif op == "set":
                attach()
                data[k] = v
            elif op == "del":
                attach()
                data.pop(k, None)
            elif op == "free":
                if data is None:
                    for x in ids:
                        if x in store:
                            sid, data = x, store[x]
                            break
                if data is not None:
                    if sid is not None:
                        store.pop(sid, None)
                sid, data, fresh_unknown = None, None, False
                ctx.count("removals")
            elif op == "dump":
                attach()
                got = {}
                while q and q[0][0] == "s":
                    f = q.pop(0)
                    got[srvlib.unhex(f[1])] = srvlib.unhex(f[2])
                if not q or q[0][0] != "sid":
                    bad = True
                    break
                rsid = srvlib.unhex(q.pop(0)[1])
                if got != data:
                    ctx.violation("contents:%s" % kind, "%s: session holds %r, stored was %r" % (where, got, data), rep)
                    return
                if sid is None:
                    if rsid in everseen or rsid in ids:
                        ctx.violation("id:reuse", "%s: a new session was given the id %r, used or chosen by a client before" % (where, rsid), rep)
                        return
                    sid = rsid
                elif rsid != sid:
                    ctx.violation("id:other", "%s: runs in session %r instead of %r" % (where, rsid, sid), rep)
                    return
                if rsid:
                    everseen.add(rsid)
                if not fresh_unknown and got:
                    ctx.count("reads_of_stored", len(got))
        if bad:
            ctx.violation("ops", "%s: handler output does not match its script: %r" % (where, obs[:6]), rep)
            return
        # the cookie
        sc = [srvlib.unhex(l[1]) for l in obs if l[0] == "SC"]
        if data:
            if len(sc) != 1:
                ctx.violation("cookie:missing", "%s: session has data but %d session cookies were sent" % (where, len(sc)), rep)
                return
            if sid is not None and sc[0] != sid:
                ctx.violation("cookie:other", "%s: cookie %r sent for session %r" % (where, sc[0], sid), rep)
                return
            if sid is None:
                if sc[0] in everseen or sc[0] in ids or len(sc[0]) < 16 or not set(sc[0]) <= ALNUM:
                    ctx.violation("id:reuse", "%s: the id of a new session is %r" % (where, sc[0]), rep)
                    return
                sid = sc[0]
            everseen.add(sid)
            jars[c] = sid
            store[sid] = data
            ctx.count("cookies")
        else:
            if sc:
                ctx.violation("cookie:empty", "%s: cookie sent for an empty session" % where, rep)
                return
            if sid is not None and data is not None:
                store.pop(sid, None)
