"""Served files: exact content, correct ranges and validators."""
import re
from .. import core, fileslib, httpresp, srvlib
from ..fileslib import h, content, request

LENS = [0, 1, 2, 3, 10, 100, 1499, 1500, 1501, 4045, 4046, 4047, 4095, 4096, 4097, 8091, 8092, 8093, 16383, 16384, 16385, 20000, 65535, 65536, 65537, 100000, 200001, 1500001]
NAMES = ["a.txt", "b.html", "c.png", "d.js", "noext", "e.tar.gz", "f.TXT", "g.", "h.css", "i.unknownext", ".hidden", "sp ace.txt"]
BIG = 5 * (1 << 30) + 12345

MIX = ("file,range,head",)      # kinds of handlers also run concurrently (harness/mix.h)


def ref_range(v, n):
    """What a Range header asks of n bytes: ('ok', s, e), ('unsat',) or ('bad',)"""
    m = re.match(rb"^bytes=(\d+)-(\d*)$", v)
    if m:
        s = int(m.group(1))
        if m.group(2):
            e = int(m.group(2))
            if e < s:
                return ("rev",)
        else:
            e = n - 1
        if s >= n:
            return ("unsat",)
        return ("ok", s, min(e, n - 1))
    m = re.match(rb"^bytes=-(\d+)$", v)
    if m:
        k = int(m.group(1))
        if k == 0 or n == 0:
            return ("unsat",)
        return ("ok", max(0, n - k), n - 1)
    return ("bad",)


def num(r, n):
    x = r.random()
    if x < 0.35:
        return r.randrange(0, n + 1)
    if x < 0.7:
        return max(0, r.choice([0, 0, 1, 2, n - 1, n - 1, n, n + 1, n // 2, 4045, 4046, 4047, 16383, 16384, 65535]))
    if x < 0.8:
        return r.choice([(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, 10 ** 30])
    return r.randrange(0, 2 * n + 10)


def gen_range(r, n):
    x = r.random()
    if x < 0.35:
        a, b = num(r, n), num(r, n)
        if r.random() < 0.8 and a > b:
            a, b = b, a
        return b"bytes=%d-%d" % (a, b)
    if x < 0.5:
        return b"bytes=%d-" % num(r, n)
    if x < 0.65:
        return b"bytes=-%d" % num(r, n)
    if x < 0.72:
        return b"bytes=%03d-%05d" % (r.randrange(0, 5), num(r, n))
    a, b, c, d = num(r, n), num(r, n), num(r, n), num(r, n)
    return r.choice([b"bytes=", b"bytes", b"bytes=-", b"bytes=--1", b"bytes=-1-", b"bytes=%d" % a, b"bytes=%d-%d,%d-%d" % (a, b, c, d), b"bytes=%d-,-%d" % (a, b),
                     b"bytes=a-b", b"bytes=0-x", b"bytes=0x1-0x5", b"items=%d-%d" % (a, b), b"%d-%d" % (a, b), b"bytes=+1-5", b"bytes=1-+5", b"bytes=1.5-3",
                     b"bytes=%d-%dz" % (a, b), b"bytes=1--5", b"bytes=-0", b"bytes=0--0", b"bytes=\xff-\x80", b"=0-5", b"bytes=%s-" % (b"9" * 200), b"bytes=-" + b"9" * 300,
                     b"bytes=0-" + b"9" * 300, b"bytes=" + b"1" * 500, b"x" * 300, b"bytes=%d-%d-%d" % (a, b, c), b"bytes=5 -9"])


def gen(r, big=False):
    """-> (lines, plan): plan is a list of dicts, one per request"""
    name = r.choice(NAMES)
    n = BIG if big else (r.choice(LENS) if r.random() < 0.8 else r.randrange(0, 30000))
    pat = r.randbytes(r.choice([997, 509, 4046 + 13]))
    mtime = r.randrange(1000, 2 ** 31)
    lines, plan = [], []
    windows = []
    if big:
        lines.append("FILE %s 644 %d %d" % (h("d/" + name), mtime, n))
        for off in [0, (1 << 31) - 300, (1 << 32) - 300, n - 1000]:
            w = r.randbytes(1000)
            windows.append((off, w[:n - off]))
            lines.append("PATCH %s %d %s" % (h("d/" + name), off, w.hex()))
    else:
        lines.append("FILE %s 644 %d %s %d" % (h("d/" + name), mtime, pat.hex(), n))
    fault = {}
    mem = r.random() < 0.5
    lines.append("SET mem %d" % mem)
    if r.random() < 0.15:
        lines.append("SET sendfile 0")
    if r.random() < 0.3:
        lines.append("SET rcap %d" % r.choice([1, 7, 100, 1000, 4000]) if n < 9000 else "SET rcap %d" % r.choice([700, 1500, 4000]))
        lines.append("SET sfcap %d" % r.choice([300, 1000, 4096, 16384, 50000]))
    if not big:
        x = r.random()
        if x < 0.10:
            fault["trunc"] = r.randrange(0, n + 1)
            lines.append("SET trunc %d" % fault["trunc"])
        elif x < 0.15:
            fault["grow"] = r.choice([1, 10, 5000])
            lines.append("SET grow %d" % fault["grow"])
        elif x < 0.22:
            fault["swap"] = r.choice([1, 10, 5000, max(1, n - 1), n + 1, 20000])
            lines.append("SET swap %d" % fault["swap"])
        elif x < 0.27 and mem:
            fault["wlim"] = r.randrange(0, n + 400)
            lines.append("SET wlim %d" % fault["wlim"])
    lines.append("SERVED %s" % h("@/d/" + name))
    kind = r.choice(["file", "export1", "export"])
    target = b"/"
    if kind == "file":
        lines.append("HND file %s -" % h("@/d/" + name))
    elif kind == "export1":
        lines.append("HND export %s -" % h("@/d/" + name))
    else:
        lines.append("HND export %s -" % h("@/d"))
        target = b"/" + name.replace(" ", "%20").encode()
    lines.append("MIME %s" % h("@/d/" + name))
    etag = None
    nreq = 1 if fault else r.randrange(1, 6)
    now = (n, mtime)
    for i in range(nreq):
        if i and not fault and not big and r.random() < 0.25:          # the file changes
            x = r.random()
            if x < 0.5:
                n2 = max(0, n + r.choice([1, -1, 2, 10, 16, 256, 4096, 65536, -65536, 131072, 1 << 20]))
                now = (n2, mtime)
            else:
                now = (n, mtime + r.choice([1, 1, 2, 10, 59, 60, 3600, 86400, 1 << 16, 1 << 24, -1, -60]))
            if r.random() < 0.2:
                now = (n, mtime)
            lines.append("FILE %s 644 %d %s %d" % (h("d/" + name), now[1], pat.hex(), now[0]))
        hd = []
        rng = None
        method = b"GET" if r.random() < 0.8 or fault else b"HEAD"
        if big:
            off, w = r.choice(windows)
            a = off + r.randrange(0, len(w))
            b = min(a + r.randrange(0, 900), n - 1)
            rng = r.choice([b"bytes=%d-%d" % (a, b), b"bytes=%d-%d" % (a, b), b"bytes=%d-" % max(a, n - 900), b"bytes=-%d" % r.randrange(1, 1000), b"bytes=%d-" % (n + r.randrange(0, 5))])
        elif r.random() < (0.75 if not fault else 0.3):
            rng = gen_range(r, now[0])
        if rng is not None:
            hd.append((b"Range", rng))
        inm = None
        x = r.random()
        if not fault and x < 0.25:
            inm = "E"           # filled from the first answer
        elif x < 0.35:
            inm = r.choice([b"x", b"0000-0000", b"\"abc\"", b"W/\"a\"", b"", b"A" * 200])
            if inm:
                hd.append((b"If-None-Match", inm))
            else:
                inm = None
        if inm == "E":
            inm = "@ETAG%s@" % (r.choice("-+") if r.random() < 0.3 else "")
            hd.append((b"If-None-Match", inm.encode()))
        r.shuffle(hd)
        q = request(method, target, hd)
        new = r.random() < 0.3
        plan.append({"m": method.decode(), "rng": rng, "inm": inm, "hd": hd, "new": new, "n": now[0], "mtime": now[1]})
        lines.append("REQ " + q.hex())
        if new:
            lines.append("NEW")
    return lines, {"n": n, "pat": pat, "big": big, "windows": windows, "fault": fault, "reqs": plan, "mem": mem, "name": name, "mtime": mtime, "kind": kind}


def part(p, s, e):
    """bytes s..e of the file as it was"""
    if not p["big"]:
        return content(p["pat"], p["n"])[s:e + 1]
    out = bytearray(e - s + 1)
    for off, w in p["windows"]:
        a, b = max(s, off), min(e + 1, off + len(w))
        if a < b:
            out[a - s:b - s] = w[a - off:b - off]
    return bytes(out)


def hget(o, k):
    return [v for a, v in o.headers if a.lower() == k]


def check(ctx, cid, p, rs, misc, rep):
    fault = p["fault"]
    n = p["n"]

    def bad(k, d):
        ctx.violation(k, "case %s: %s (file of %d bytes, %s, %s, fault %r)" % (cid, d, n, p["kind"], "memory" if p["mem"] else "socket", fault), rep)
    if len(rs) < len(p["reqs"]):
        bad("lost", "%d requests, %d observed" % (len(p["reqs"]), len(rs)))
        return
    last, seen = b"none", {}
    for i, (q, o) in enumerate(zip(p["reqs"], rs)):
        n, fid = q["n"], (q["n"], q["mtime"])
        p = dict(p, n=n)
        if isinstance(q["inm"], str):
            q["inm"] = last[:-1] if "-" in q["inm"] else last + b"0" if "+" in q["inm"] else last
        if o.fsout:
            bad("out", "opened %r" % (o.fsout,))
        what = "%s Range=%r If-None-Match=%r" % (q["m"], q["rng"], q["inm"])
        ctx.evals += 1
        if "wlim" in fault:
            # the client is gone: nothing to check but that it ends, with what could be sent being right
            if o.info.get("closed") != 1 and len(o.out) >= fault["wlim"]:
                bad("gone", "%s: connection kept after the client was gone" % what)
            ctx.count("gone_clients")
            ctx.distinct.add(("gone", n > 4046, fault["wlim"] > 300))
            continue
        closed = o.info.get("closed") == 1
        try:
            a = httpresp.parse(o.out, q["m"], closed)
        except httpresp.Bad as e:
            bad("unreadable", "%s: %s" % (what, e))
            continue
        size = n
        alt = None
        if "swap" in fault:
            alt = b"S" * fault["swap"]
            # the answer has to be wholly of one of the two files
        te = hget(a, b"transfer-encoding")
        cr = hget(a, b"content-range")
        et = hget(a, b"etag")
        if len(cr) > 1 or len(et) != 1 and a.code in (200, 206, 304):
            bad("headers", "%s: headers %r" % (what, a.headers))
            continue
        if not fault:
            if et:
                if et[0] in seen and seen[et[0]] != fid:
                    bad("etag-same", "%s: validator %r is of (size, date) %r and %r" % (what, et[0], seen[et[0]], fid))
                elif fid in seen.values() and seen.get(et[0]) != fid:
                    bad("etag-change", "%s: validator %r, was another, of the same file" % (what, et[0]))
                seen[et[0]] = fid
        opts = []              # (code, content range or None, body)
        for sz, data in [(n, None)] + ([(fault["swap"], alt)] if alt is not None else []):
            get = (lambda s, e, data=data: data[s:e + 1]) if data is not None else (lambda s, e: part(p, s, e))
            if q["rng"] is None:
                opts.append((200, None, 0, sz - 1, get))
                continue
            rr = ref_range(q["rng"], sz)
            if rr[0] == "ok":
                opts.append((206, b"bytes %d-%d/%d" % (rr[1], rr[2], sz), rr[1], rr[2], get))
            elif rr[0] == "unsat":
                opts.append((416, b"bytes */%d" % sz, 0, -1, get))
            else:
                opts.append((200, None, 0, sz - 1, get))
                opts.append((416, b"bytes */%d" % sz, 0, -1, get))
                opts.append((400, None, 0, -1, get))
        if et:
            last = et[0]
        match = q["inm"] is not None and et and q["inm"] == et[0]
        ctx.distinct.add((a.code, q["m"], q["rng"] is not None and ref_range(q["rng"], n)[0], bool(match), n if n in LENS else "r", p["kind"], p["mem"], tuple(fault)))
        ctx.count("code_%d" % a.code)
        if a.code == 304:
            if not match:
                bad("304", "%s: not modified, but the validator is %r" % (what, et))
            if o.out[a.head_len:]:
                bad("304-body", "%s: content in a not modified answer" % what)
            ctx.count("not_modified")
            continue
        if match and "swap" not in fault:
            bad("no-304", "%s: code %d though the validator matches" % (what, a.code))
            continue
        okk = False
        for code, c, s, e, get in opts:
            if a.code != code:
                continue
            if code != 400 and (cr[0] if cr else None) != c:
                continue
            okk = (code, s, e, get)
            l = hget(a, b"content-length")
            if not l and not te and q["m"] == "GET" and not closed:
                bad("framing", "%s: no length" % what)
            if l and code in (200, 206) and int(l[0]) != e - s + 1:
                okk = False
                continue
            if q["m"] == "HEAD":
                break
            want = get(s, e) if code in (200, 206) else None
            if want is None:
                break
            if "trunc" in fault and o.info.get("touched"):
                break
            if a.body == want:
                break
            okk = False
        if not okk:
            k = "range-%s" % ref_range(q["rng"], n)[0] if q["rng"] is not None else "full"
            bad(k, "%s: answered %d, Content-Range %r, length %r, %d bytes %r; expected one of %r" %
                (what, a.code, cr, hget(a, b"content-length"), len(a.body), a.body[:40], [(x[0], x[1], x[3] - x[2] + 1) for x in opts]))
            continue
        code, s, e, get = okk
        if closed and not fault and not any(b"close" in v.lower() for v in hget(a, b"connection")) and code != 400:
            bad("closed", "%s: connection closed after the answer without saying so" % what)
        if q["m"] == "HEAD":
            if o.out[a.head_len:]:
                bad("head-body", "%s: %d bytes after the headers" % (what, len(o.out) - a.head_len))
            ctx.count("heads")
        elif "trunc" in fault and o.info.get("touched") and code in (200, 206):
            want = get(s, e)
            avail = want[:max(0, min(e + 1, fault["trunc"]) - s)]
            if a.complete and a.body != want[:len(a.body)] or not want.startswith(a.body):
                bad("shrunk-content", "%s: file cut to %d while served; got other bytes: %d, %r" % (what, fault["trunc"], len(a.body), a.body[len(avail):len(avail) + 60]))
            if len(avail) < len(want):
                if a.framing == "length" and not closed and not a.complete:
                    bad("shrunk-open", "%s: file cut to %d while served; connection left open with %d bytes of %d" % (what, fault["trunc"], len(a.body), len(want)))
            elif not a.complete:
                bad("shrunk-less", "%s: %d bytes of %d" % (what, len(a.body), len(want)))
            ctx.count("shrunk_files")
        elif not a.complete or a.rest:
            bad("incomplete", "%s: complete=%s, %d bytes more" % (what, a.complete, len(a.rest)))
        if code in (200, 206) and "swap" not in fault:
            ct = hget(a, b"content-type")
            if ct != [misc["mime"][0]]:
                bad("type", "%s: type %r, %r expected" % (what, ct, misc["mime"][0]))
        ctx.count("sendfile_calls", o.info.get("sendfiles", 0))
        ctx.count("short_transfers", o.info.get("short", 0))
        ctx.sample("%s -> %d %r %d bytes" % (what, a.code, cr, len(a.body)))
    # HEAD against GET of the same
    if misc["res"].get("allocs") or misc["res"].get("fds"):
        bad("leak", "left behind: %r" % (misc["res"],))


def run(ctx):
    r = ctx.rng
    ctx.rule = "distinct (code, method, kind of range, validator, size, way of serving, transport, fault)"
    ctx.assumptions = ["If-Range and several ranges are not supported: answered as if alone, or in full", "validators are sent as they were received, one per request"]
    b = fileslib.binary()
    cases, plans = [], {}
    n = ctx.n(8000, 120000)
    for i in range(n):
        lines, p = gen(r, big=i % 40 == 7)
        cases.append(("c%d" % i, "\n".join(lines)))
        plans["c%d" % i] = p
    # HEAD and GET say the same
    for i in range(ctx.n(500, 5000)):
        nn = r.choice(LENS)
        name = r.choice(NAMES)
        lines = ["FILE %s 644 %d %s %d" % (h("d/" + name), 5000 + i, r.randbytes(101).hex(), nn), "SET mem %d" % r.randrange(2), "HND file %s -" % h("@/d/" + name)]
        hd = []
        if r.random() < 0.6:
            hd.append((b"Range", gen_range(r, nn)))
        if r.random() < 0.3:
            hd.append((b"If-None-Match", r.choice([b"x", b"@ETAG@"])))
        lines.append("REQ " + request(b"GET", b"/", []).hex())
        for m in (b"GET", b"HEAD"):
            lines.append("REQ " + request(m, b"/", hd).hex())
        cases.append(("h%d" % i, "\n".join(lines)))
    texts = dict(cases)
    res = fileslib.run(ctx, b, cases, timeout=300)
    live = srvlib.die_report(ctx, res, cases)
    for cid, lines in live.items():
        rs, first, misc = fileslib.observe(lines)
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        if cid[0] == "h":
            try:
                g, hh = httpresp.parse(rs[1].out, "GET", rs[1].info["closed"] == 1), httpresp.parse(rs[2].out, "HEAD", True)
            except (httpresp.Bad, IndexError) as e:
                ctx.violation("unreadable", "case %s: %s" % (cid, e), rep)
                continue
            skip = (b"date",)
            a = sorted((k.lower(), v) for k, v in g.headers if k.lower() not in skip)
            c = sorted((k.lower(), v) for k, v in hh.headers if k.lower() not in skip)
            if a != c or g.code != hh.code:
                ctx.violation("head-get", "case %s: GET says %d %r, HEAD %d %r" % (cid, g.code, a, hh.code, c), rep)
            if rs[2].out[hh.head_len:]:
                ctx.violation("head-body", "case %s: HEAD answer with a body" % cid, rep)
            ctx.count("head_get_pairs")
            continue
        check(ctx, cid, plans[cid], rs, misc, rep)
    for k in ("code_200", "code_206", "code_416", "not_modified", "heads", "sendfile_calls", "short_transfers", "shrunk_files", "gone_clients", "head_get_pairs"):
        ctx.require(ctx.extra.get(k, 0) > 10, "%s: %s" % (k, ctx.extra.get(k, 0)))
