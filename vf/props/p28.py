"""The C++ bindings behave as the C API and own their objects safely."""
import json, os
from .. import build, core

KEYS = ["a", "b", "c", "key", "Key", "\u00e9", "", "k" * 70, "x y", "html", "crazy"]
VALS = ["", "v", "value two", "\u00f1and\u00fa", "quote\" back\\ nl\n tab\t", "<b>", "z" * 300, "0", "null", "application/x-crazy"]


class N:
    def __init__(self, items=()):
        self.items = list(items)

    def of(self, k):
        return [v for x, v in self.items if x == k]

    def get(self, k):
        return [v for v in self.of(k) if isinstance(v, str)]

    def setk(self, k, v):
        for i, (x, _) in enumerate(self.items):
            if x == k:
                self.items[i] = (k, v)
                return
        self.items.append((k, v))

    def rem(self, k):
        for i, (x, _) in enumerate(self.items):
            if x == k:
                del self.items[i]
                return

    def dup(self):
        return N([(k, v if isinstance(v, str) else v.dup()) for k, v in self.items])

    def reaches(self, o):
        return self is o or any(not isinstance(v, str) and v.reaches(o) for _, v in self.items)

    def canon(self):
        return sorted((k, v if isinstance(v, str) else v.canon()) for k, v in self.items) if all(
            isinstance(v, str) for _, v in self.items) else sorted(((k, repr(v if isinstance(v, str) else ("D", v.canon()))) for k, v in self.items))


class Pairs(list):
    pass


def to_n(p):
    return N([(k, v if isinstance(v, str) else to_n(v)) for k, v in p])


def depth(n):
    return 1 + max([depth(v) for _, v in n.items if not isinstance(v, str)] or [0])


def size(n):
    return 1 + sum(size(v) if not isinstance(v, str) else 1 for _, v in n.items)


def jsons(r, n):
    def q(s):
        return json.dumps(s, ensure_ascii=False)
    return "{" + ",".join(q(k) + r.choice([":", ": "]) + (q(v) if isinstance(v, str) else jsons(r, v)) for k, v in n.items) + "}"


def x(s):
    return (s if isinstance(s, bytes) else s.encode()).hex() + "."


def pick_n(r, d=0):
    n = N()
    for k in r.sample(KEYS, r.randrange(0, 4)):
        n.items.append((k, pick_n(r, d + 1) if d < 3 and r.random() < 0.3 else r.choice(VALS)))
    return n


def gen_dict(r):
    """-> (lines, expectations): a history over six slots and its reference model"""
    slots, lines, exp = {}, [], []
    mime = [False]

    def emit(line, e=None):
        lines.append("D " + line)
        exp.append(e)
    if r.random() < 0.03:
        a, b = r.choice("rw"), r.choice("rw")
        slots[5] = N()
        emit("new 5")
        emit("excl 5 %s %s" % (a, b), ("raw", "%d" % (a == b == "r")))
    for _ in range(r.choice([8, 20, 40, 80])):
        live = sorted(slots)
        full = [s for s in live if slots[s] is not None]
        i = r.randrange(6)
        op = r.choice(["new", "map", "il", "copy", "copy", "through", "vec", "assign", "assign", "assign", "assignc", "wrap", "owned", "dup", "sub", "sub", "sub", "suba", "suba", "del",
                       "add", "add", "add", "add", "addd", "addd", "adds", "adds", "addil", "rem", "rem", "merge", "merge", "fromjson", "lock", "get", "get", "def", "has", "idx",
                       "count", "json", "json", "tomap", "mimeset", "mimeget", "mimeget", "mimeupd", "mimerem", "lps"])
        if op == "new":
            slots[i] = N()
            emit("new %d" % i)
        elif op == "map":
            ks = r.sample(KEYS, r.randrange(0, 4))
            slots[i] = N([(k, r.choice(VALS)) for k in ks])
            emit("map %d %s" % (i, " ".join(x(k) + " " + x(v) for k, v in slots[i].items)))
        elif op == "il":
            ks = r.sample(KEYS, r.choice([2, 3]))
            if r.random() < 0.1:
                ks[-1] = ks[0]
            slots[i] = N([(k, r.choice(VALS)) for k in ks])
            emit("il %d %s" % (i, " ".join(x(k) + " " + x(v) for k, v in slots[i].items)))
        elif op in ("copy", "through", "vec", "wrap"):
            if live:
                j = r.choice(live)
                slots[i] = slots[j]
                emit("%s %d %d" % (op, i, j))
        elif op in ("owned", "dup"):
            if full:
                j = r.choice(full)
                slots[i] = slots[j].dup() if op == "dup" else slots[j]
                emit("%s %d %d" % (op, i, j))
        elif op in ("assign", "assignc"):
            if live:
                j = r.choice(live)
                i = j if r.random() < 0.25 else r.choice(live)
                slots[i] = slots[j]
                emit("%s %d %d" % (op, i, j))
        elif op in ("sub", "suba"):
            if live:
                j = r.choice(live)
                if op == "suba":
                    i = r.choice(live + [j] * 3)
                subs = [k for k, v in slots[j].items if not isinstance(v, str)] if slots[j] else []
                k = r.choice(subs) if subs and r.random() < 0.9 else r.choice(KEYS)
                c = [v for v in slots[j].of(k) if not isinstance(v, str)] if slots[j] else []
                if len(c) > 1:
                    continue
                emit("%s %d %d %s" % (op, i, j, x(k)))
                slots[i] = c[0] if c else None
        elif op == "del":
            if live:
                i = r.choice(live)
                del slots[i]
                emit("del %d" % i)
        elif op in ("add", "addd", "adds", "addil"):
            if not full:
                continue
            i = r.choice(full)
            n = slots[i]
            k = r.choice(KEYS)
            have = len(n.of(k))
            if have > 1 or (have and op == "addil"):
                continue
            rep = "r" if have or r.random() < 0.2 else "-"
            if op == "add":
                v = r.choice(VALS)
                emit("add %d %s %s %s" % (i, x(k), x(v), rep))
            elif op == "addil":
                kk = r.sample(KEYS, 2)
                v = N([(a, r.choice(VALS)) for a in kk])
                emit("addil %d %s %s" % (i, x(k), " ".join(x(a) + " " + x(b) for a, b in v.items)))
            else:
                j = r.choice(full)
                if op == "adds" and slots[j].reaches(n):
                    continue
                if size(slots[j]) > 60 or depth(slots[j]) > 8:
                    continue
                v = slots[j].dup() if op == "addd" else slots[j]
                emit("%s %d %s %d %s" % (op, i, x(k), j, rep))
            n.setk(k, v)
        elif op == "rem":
            if full:
                i = r.choice(full)
                ks = [k for k, _ in slots[i].items] or KEYS
                k = r.choice(ks if r.random() < 0.8 else KEYS)
                if len(slots[i].of(k)) > 1 and not all(isinstance(v, str) and v == slots[i].of(k)[0] for v in slots[i].of(k)):
                    continue
                emit("rem %d %s" % (i, x(k)))
                slots[i].rem(k)
        elif op == "merge":
            if full:
                i = r.choice(full)
                j = r.choice(live + [i, i])
                b = slots[j]
                if b is slots[i] and (len(b.items) > 12 or any(not isinstance(v, str) for _, v in b.items)):
                    continue
                if b is not None and b is not slots[i] and set(k for k, _ in b.items) & set(k for k, _ in slots[i].items):
                    continue
                if b is not None and (size(b) > 60 or b is not slots[i] and b.reaches(slots[i])):
                    continue
                emit("merge %d %d" % (i, j))
                if b is not None:
                    slots[i].items += b.dup().items
        elif op == "fromjson":
            if r.random() < 0.75:
                n = pick_n(r)
                emit("fromjson %d %s" % (i, x(jsons(r, n))))
                slots[i] = n
            else:
                emit("fromjson %d %s" % (i, x(r.choice(["", "{", "[]", "{\"a\"", "{\"a\":}", "{\"a\":{\"b\":\"c\"}", "x", "{\"a\":\"b\"} trailing", "{\"a\":\"b"]))))
                slots[i] = None
        elif op == "lock":
            if full:
                emit("lock %d %s" % (r.choice(full), r.choice("rw")))
        elif op == "lps":
            emit("lps 0")
        elif op == "mimeset":
            if full:
                i = r.choice(full)
                emit("mimeset %d" % i)
                mime[0] = slots[i]
        elif op == "mimeget":
            if mime[0] is not False:
                e = r.choice([k for k in KEYS if k])
                emit("mimeget 0 %s" % x(r.choice(["file.", "a.b.", "."]) + e), ("one", mime[0].get(e) or ["text/plain"]))
        elif op in ("mimeupd", "mimerem"):
            if mime[0] is not False:
                e = r.choice(KEYS)
                if len(mime[0].of(e)) > 1:
                    continue
                if op == "mimeupd":
                    v = r.choice(VALS)
                    emit("mimeupd 0 %s %s" % (x(e), x(v)))
                    mime[0].setk(e, v)
                else:
                    emit("mimerem 0 %s" % x(e))
                    mime[0].rem(e)
        elif live:
            i = r.choice(live)
            n = slots[i] or N()
            ks = [k for k, _ in n.items] or KEYS
            k = r.choice(ks if r.random() < 0.7 else KEYS)
            got = n.get(k)
            if any(not isinstance(v, str) for v in n.of(k)) and got:
                continue
            if op == "get":
                emit("get %d %s" % (i, x(k)), ("one", got or [""]))
            elif op == "def":
                emit("def %d %s %s" % (i, x(k), x("dflt")), ("one", got or ["dflt"]))
            elif op == "has":
                emit("has %d %s" % (i, x(k)), ("raw", "%d" % bool(got)))
            elif op == "idx":
                emit("idx %d %s" % (i, x(k)), ("one", got) if got else ("throws", k))
            elif op == "count":
                emit("count %d" % i, ("raw", "%d" % len(n.items)))
            elif op == "json":
                emit("json %d" % i, ("json", n.canon()))
            elif op == "tomap":
                m = {}
                for kk, v in n.items:
                    if isinstance(v, str):
                        m.setdefault(kk, []).append(v)
                emit("tomap %d" % i, ("map", m))
    for i in sorted(slots):
        n = slots[i] or N()
        emit("json %d" % i, ("json", n.canon()))
    return lines, exp


def judge_dict(ctx, c, out):
    lines, exp = c
    if out[-2] != "BAL heap=0 fds=0 handlers=0":
        return "balance", "not everything was released: %s" % out[-2]
    rows = [l for l in out if l.startswith("R ")]
    if len(rows) != len(lines):
        raise core.HarnessError("%d answers for %d operations" % (len(rows), len(lines)))
    for l, e, row in zip(lines, exp, rows):
        ctx.evals += 1
        ctx.count("dict_" + l.split()[1])
        if e is None:
            continue
        f = row.split()[2:]
        dec = [bytes.fromhex(v.rstrip(".")).decode("utf-8", "surrogateescape") for v in f if v.endswith(".")]
        ok = True
        if e[0] == "raw":
            ok = f == [e[1]]
        elif e[0] == "one":
            ok = len(dec) == 1 and len(f) == 1 and dec[0] in e[1]
        elif e[0] == "throws":
            ok = f[:1] == ["throws"] and e[1] in dec[0]
        elif e[0] == "map":
            ok = dict(zip(dec[::2], dec[1::2])).keys() == e[1].keys() and all(b in e[1][a] for a, b in zip(dec[::2], dec[1::2]))
        elif e[0] == "json":
            try:
                ok = to_n(json.loads(dec[0], object_pairs_hook=Pairs, strict=False)).canon() == e[1]
            except ValueError:
                ok = False
        if not ok:
            return "dict-" + l.split()[1], "%s gives %r, should be %r" % (l, dec or f, e)
    return None


# ---------------------------------------------------------------------------------------- servers
PROGKINDS = ["prog"] * 8 + ["http", "http500", "ierror", "notfound", "redirect", "sredirect", "std", "key", "int", "unrelated", "status"]
PATS = ["", "p", "^q/", "^r", "^([a-z]+)/([0-9]+)$", "^n/(.*)$", "deep/file.txt", "^bad(", "^$", "x y", "^.*\\.html$", "^f/", "^d/"]
PATHS = ["", "p", "q/", "q/p", "q/q/p", "r", "rest", "r/p", "abc/123", "n/anything/else", "deep/file.txt", "x%20y", "page.html", "f/", "d/", "d/one.txt", "d/sub/", "d/../x", "nothing",
         "q/n/z", "q/q/q/abc/1", "target/", "q/page.html", "q"]


def gen_srv(r, docs):
    l = ["KEY %s" % x(k) for k in r.sample(["Host", "host", "X-H", "a", "b", "Accept-Language", "1", "2", "sessionid", "s", "file", "none"], 6)]
    nspec = 0

    def spec():
        nonlocal nspec
        k = r.choice(PROGKINDS + ["static", "static", "file", "iredir", "redir", "dir", "dir"])
        a, code = r.choice(["text", "", "some <b>text</b>", "/target/x?y=z", "long " * 200, "\u00e1"]), r.choice([200, 404, 500, 403, 201, 418])
        if k == "file":
            a = os.path.join(docs, r.choice(["one.txt", "empty", "big.bin", "missing"]))
        if k == "dir":
            a = docs + r.choice(["", "/", "/sub"])
        if k == "iredir":
            a = r.choice(["/target/", "/target/x", "/target/?q=1"])
        if k in ("redir", "redirect", "sredirect"):
            a = r.choice(["/target/", "http://example.com/x", "/a?b=c&d", "?x=y", "rel/ative"])
        if k == "status":
            code = r.choice([0, 2, -500, -501, -502])
        l.append("SPEC %s %s %d" % (k, x(a), code))
        if k in PROGKINDS:
            for _ in range(r.choice([0, 1, 1, 2, 4, 8])):
                o = r.choice(["W", "W", "S", "S", "P", "N", "H", "H", "L", "C", "K", "WH", "DUMP", "DUMP", "DUMP", "SET", "SET", "UNSET", "NOSES", "T"])
                if o in ("W", "S", "P"):
                    args = [r.choice(["x", "", "hello", "y" * r.choice([10, 1500, 5000]), "\u00e9" * 40, b"\x00", b"a\x00b", b"\xff", b"\xff\x00\xfe\xff", bytes(range(256))])]
                    if o == "P":
                        args = [args[0][:200]]
                elif o == "N":
                    args = [str(r.randrange(-1000, 100000))]
                elif o == "H":
                    args = [r.choice(["X-One", "Content-Type", "X-Two"]), r.choice(["v", "text/css", "", "a b"])]
                elif o == "L":
                    args = [str(r.choice([0, 5, 100]))]
                elif o == "C":
                    args = [str(r.choice([200, 201, 404, 304, 500]))]
                elif o == "K":
                    args = [r.choice(["ck", "other"]), r.choice(["v", "", "long" * 50]), str(r.choice([-1, 0, 3600])), r.choice(["", "/", "/p"]), r.choice(["", "example.com"]), str(r.choice([0, 1, 2, 3]))]
                elif o == "SET":
                    args = [r.choice("sab"), r.choice(["v", "w" * 100, ""])]
                elif o == "UNSET":
                    args = [r.choice("sab")]
                elif o == "T":
                    args = [r.choice("abc"), r.choice(VALS)]
                else:
                    args = []
                l.append("OP %s %s" % (o, " ".join(x(a) for a in args)))
        nspec += 1
        return nspec - 1

    def add(u, pat):
        s = spec()
        l.append("ADD %d %s %s %d" % (u, x(pat), r.choice(["fn", "method", "make", "raw", "sub", "cfn", "chandler", "bridge"]), s))
    srv = "SRV %d %d %d %d" % (r.randrange(5), r.randrange(3), r.randrange(4), r.random() < 0.3)
    l.append(srv)
    for _ in range(r.choice([0, 0, 1, 2])):
        w = r.choice(["post", "post", "file", "file", "timeout", "threads"])
        l.append("LIMIT %s %d" % (w, r.choice([0, 5, 8, 9, 100, 1000, 5000]) if w in ("post", "file") else r.choice([1, 100, 5000])))
    l.append("SPEC static %s 200" % x("the target"))
    nspec += 1
    l.append("ADD 0 %s fn 0" % x("^target/"))
    nurl = 1
    for _ in range(r.randrange(1, 6)):
        y = r.random()
        u = r.randrange(nurl)
        if y < 0.35 and nurl < 5:
            l.append("URL")
            if r.random() < 0.3:
                l.append("MOVEURL %d" % nurl)
            if r.random() < 0.5:
                add(nurl, r.choice(PATS))
            l.append("NEST %d %s %d" % (u, x(r.choice(["^q/", "^r", "^n/", "^"] if u else ["^q/", "^r", "^n/"])), nurl))
            nurl += 1
        elif y < 0.42:
            l.append("MOVEURL %d" % u)
        else:
            add(u, r.choice(PATS))
    for u in range(nurl):
        if r.random() < 0.7:
            add(u, r.choice(PATS))
    nreq = r.randrange(1, 7)
    raws = []
    for i in range(nreq):
        path = "/" + r.choice(PATHS)
        if r.random() < 0.4:
            path += "?" + r.choice(["a=1", "a=1&b=2", "go", "a=%20x&1=y", "b="])
        h = [b"Host: localhost"]
        if r.random() < 0.4:
            h.append(b"X-H: " + r.choice([b"v", b"", b"long " * 30]))
        if r.random() < 0.3:
            h.append(b"Accept-Language: " + r.choice([b"es", b"en-US,en;q=0.5", b"", b"fr;q=1"]))
        y = r.random()
        if y < 0.5 and i:
            h.append(b"Cookie: a=1; sessionid=@@SID%d@@" % r.randrange(i))
        elif y < 0.7:
            h.append(b"Cookie: " + r.choice([b"a=b; b=c", b"sessionid=unknown", b"s=1"]))
        m, body = b"GET", b""
        z = r.random()
        if z < 0.2:
            m, body = b"POST", r.choice([b"a=1&b=two", b"s=%41", b"a=" + b"x" * 2000])
            h += [b"Content-Type: application/x-www-form-urlencoded", b"Content-Length: %d" % len(body)]
        elif z < 0.35:
            m = b"POST"
            body = b"--BB\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nval\r\n--BB\r\nContent-Disposition: form-data; name=\"file\"; filename=\"f.txt\"\r\n\r\ncontents\r\n--BB--\r\n"
            h += [b"Content-Type: multipart/form-data; boundary=BB", b"Content-Length: %d" % len(body)]
        elif z < 0.45:
            m = b"HEAD"
        raw = b"%s %s HTTP/1.%d\r\n%s\r\n" % (m, path.encode(), r.random() < 0.8, b"".join(a + b"\r\n" for a in h)) + body
        raws.append(raw)
        l.append("REQ %s" % raw.hex())
    return l, raws


def judge_srv(ctx, c, out):
    lines, raws = c
    if out[-2] != "BAL heap=0 fds=0 handlers=0":
        return "balance", "not everything was released: %s" % out[-2]
    a = [l for l in out if l.startswith("OUTC ")]
    b = [l for l in out if l.startswith("OUTP ")]
    if len(a) != len(raws) or len(b) != len(raws):
        raise core.HarnessError("answers %d %d of %d" % (len(a), len(b), len(raws)))
    for raw, p, q in zip(raws, a, b):
        ctx.evals += 1
        ctx.count("requests")
        st1, d1 = p.split()[1], bytes.fromhex(p.split()[2].rstrip("."))
        st2, d2 = q.split()[1], bytes.fromhex(q.split()[2].rstrip("."))
        ctx.count("answer_%s" % d1[9:12].decode(errors="replace"))
        if b"\nmethod " in d1:
            ctx.count("requests_dumped")
        if (st1, d1) != (st2, d2):
            i = next((k for k in range(min(len(d1), len(d2))) if d1[k] != d2[k]), min(len(d1), len(d2)))
            return "differs", "%r: status %s and %s; at %d: C %r, C++ %r" % (raw[:300], st1, st2, i, d1[max(0, i - 60):i + 200], d2[max(0, i - 60):i + 200])
    return None


def run(ctx):
    binary = build.harness("cpp", cxx=True, wrap=["onion_random_generate", "time"])
    docs = os.path.join(ctx.scratch, "docs")
    os.makedirs(docs + "/sub")
    for n, d in (("one.txt", b"one file\n"), ("empty", b""), ("big.bin", bytes(range(256)) * 300), ("sub/two.html", b"<p>two</p>")):
        with open(os.path.join(docs, n), "wb") as f:
            f.write(d)
    n = ctx.n(8000, 60000)
    cases = {}
    for i in range(n):
        cases["d%d" % i] = ("d", gen_dict(ctx.rng))
        cases["s%d" % i] = ("s", gen_srv(ctx.rng, docs))
    res = core.run_cases(ctx, binary, [(k, "\n".join(c[0])) for k, (_, c) in cases.items()], timeout=700)
    ctx.rule = "one operation on a dictionary object compared with the reference model, or one request answered by the C++ and the C server and compared"
    for k, (t, c) in cases.items():
        out = res.get(k)
        if out is None:
            continue
        text = "\n".join(c[0])
        ctx.distinct.add(hash(text))
        if isinstance(out, core.Died):
            ctx.violation("died:" + out.key, core.san_excerpt(out.err) if out.kind != "hang" else "no answer in time", text)
            continue
        v = judge_dict(ctx, c, out) if t == "d" else judge_srv(ctx, c, out)
        if v:
            ctx.violation(v[0], v[1], text)
        elif len(ctx.samples) < 6:
            ctx.sample({"case": k, "first": text[:400]})
    e = ctx.extra
    for o in ("assign", "assignc", "copy", "vec", "sub", "suba", "addd", "adds", "merge", "fromjson", "json", "idx", "tomap", "lock", "mimeget", "excl"):
        ctx.require(e.get("dict_" + o, 0) > n // (10 if o != "excl" else 100), "too few dictionary operations %s: %s" % (o, e.get("dict_" + o)))
    for o in ("requests", "requests_dumped", "answer_200", "answer_404", "answer_500"):
        ctx.require(e.get(o, 0) > n // 40, "too few %s: %s" % (o, e.get(o)))
