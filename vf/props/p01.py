"""No byte stream can make request intake touch memory it does not own, execute UB, abort or hang."""
import hashlib
from .. import core, srvlib, httpgen as g


def stream(r):
    x = r.random()
    if x < 0.75:
        s = g.gen_request(r, huge=4000 if r.random() < 0.2 else 0).wire()
        if r.random() < 0.9:
            s = g.mutate(r, s)
    elif x < 0.9:
        s = b"".join(r.choice(g.DICT) if r.random() < 0.7 else g.rbytes(r, r.randrange(1, 20)) for _ in range(r.randrange(1, 40)))
    elif x < 0.95:
        s = bytes(r.randrange(256) for _ in range(r.randrange(1, 400)))
    else:                          # over-long tokens, delivered in small pieces
        t = bytes([r.choice(b"Aa0%:+&=;\"-")])
        n = r.choice([8100, 8189, 8190, 8191, 8192, 8193, 9000, 20000])
        pre = r.choice([b"", b"GET ", b"GET / ", b"GET / HTTP/1.1\r\n", b"GET / HTTP/1.1\r\nA: ", b"GET / HTTP/1.1\nA: b\n ",
                        b"GET / HTTP/1.1\r\nCookie: ", b"GET /?",
                        b"POST / HTTP/1.1\r\nContent-Length: 99999\r\nContent-Type: multipart/form-data; boundary=a\r\n\r\n--a\r\n",
                        b"POST / HTTP/1.1\r\nContent-Length: 99999\r\nContent-Type: multipart/form-data; boundary=a\r\n\r\n--a\r\nContent-Disposition: form-data; name=\"",
                        b"POST / HTTP/1.1\r\nContent-Length: 99999\r\nContent-Type: multipart/form-data; boundary="])
        s = pre + t * n + r.choice([b"", b"\r\n\r\n", b"\n b\n\n", b": b\r\n\r\n", b" HTTP/1.1\r\n\r\n"])
    return s


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    ctx.rule = ("case = a generated request mutated (dictionary, splices, truncation, over-long tokens) or raw noise, cut into "
                "segments, delivered to the real parser+response under ASan/UBSan with configured limits; non-trivial = distinct "
                "stream that reached a parser decision (handler run, refusal or a request left incomplete after >=1 header)")
    n = ctx.n(16000, 200000)
    done = 0
    batch = 16000
    styles = {}
    while done < n:
        cases = []
        meta = {}
        for i in range(min(batch, n - done)):
            s = stream(r)
            st = r.choice(["one", "one", "bytes", "two", "few", "crlf", "delim", "fixed"])
            if st == "bytes" and len(s) > 3000:
                st = "fixed"
            if 8000 < len(s) < 30000 and r.random() < 0.3:
                st = "bytes"
            ch = g.split(r, s, st)
            sets = []
            if r.random() < 0.5:
                sets = ["max_post %d" % r.choice([0, 1, 10, 100, 1000, 5000]), "max_file %d" % r.choice([0, 1, 100, 1000, 100000])]
            cid = "%d" % (done + i)
            tail = r.choice(["FREE", "EOF"])
            cases.append((cid, srvlib.case(ch, ("dump", "sdump", "w 6f6b") if r.random() < 0.3 else ("dump", "w 6f6b"), sets, tail)))
            meta[cid] = s
        res = core.run_cases(ctx, b, cases, timeout=240)
        live = srvlib.die_report(ctx, res, cases)
        for cid, lines in live.items():
            ctx.evals += 1
            o = srvlib.Obs(lines)
            if o.reqs:
                ctx.count("handler_runs", len(o.reqs))
            refused = any(x.startswith("-5") for x in o.st)
            if refused:
                ctx.count("refused")
            ctx.count("segments", len(o.st))
            ctx.distinct.add(hashlib.md5(meta[cid]).digest())
            if o.freed not in (None, 1):
                ctx.violation("close-count", "the connection was closed %s times" % o.freed, dict(cases)[cid])
        if not ctx.samples:
            for cid in list(meta)[:3]:
                ctx.sample(repr(meta[cid][:200]))
        done += len(cases)
        if ctx.violations:
            break
    ctx.assumptions = ["memory errors are those ASan/UBSan (clang 18) can observe; uninitialised reads are not covered",
                       "driver replaces only the transport (read/write), one connection at a time"]
    ctx.require(ctx.extra.get("handler_runs", 0) > n / 20 and ctx.extra.get("refused", 0) > n / 200, "workload reached too few parser outcomes")
