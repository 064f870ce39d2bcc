"""Requests go to the handler the route table says, and results map to statuses."""
import hashlib, re
from .. import core, srvlib, httpgen as g, httpresp

SEG = ["a", "b", "ab", "x1", "login", "img", "0", "42", "é", "A.B", "c d", "st-atic", "%2f", "~u"]

MIX = ("regexp,nested,path,static,notfound",)      # kinds of handlers also run concurrently (harness/mix.h)


def quote(s):
    return b"".join(bytes([c]) if c in g.UNRES or c == 47 else b"%%%02x" % c for c in s)


class Node:
    pass


class Gen:
    """patterns are chosen so that POSIX leftmost-longest and Python agree"""
    def __init__(self, r):
        self.r = r
        self.ids = 0
        self.seen = set()

    def lit(self):
        return self.r.choice(["a", "b", "ab", "x1", "login", "img", "0", "42", "A.B"])

    def pattern(self, deep):
        r = self.r
        k = r.random()
        l = self.lit()
        esc = l.replace(".", "\\.")
        if deep:          # prefix patterns that leave a remaining path
            return r.choice(["^%s/" % esc, "^%s" % esc, "^([a-z]+)/", "^([a-z0-9]*)/", "^%s/([0-9]+)/" % esc, "^", "^/", "^([a-z]+)/([0-9]+)/", "^(x)?([a-z]+)/"])
        if k < 0.35:
            return r.choice([l, l + "/", "", l + "/" + self.lit(), l + "/" + self.lit() + "/"])
        return r.choice(["^%s$" % esc, "^%s/([0-9]+)$" % esc, "^([a-z]*)$", "^(.*)$", "^%s" % esc, "^%s/(.*)$" % esc, "^([a-z]+)(/[0-9]+)?$",
                         "^(x)?([0-9]+)$", "^([a-z0-9])([a-z0-9])?([a-z0-9])?$", "^(a)?(b)?(c)?$", "^$", "^%s|^%s$" % (esc, self.lit().replace(".", "\\.")),
                         "^" + "([a-z0-9])" * 15, "^(([a-z]+)/([0-9]+))$"])

    def leaf(self, ret=None):
        n = Node()
        n.t = "leaf"
        n.id = self.ids
        self.ids += 1
        n.ret = ret if ret is not None else self.r.choice([2] * 8 + [0, -500, -501, -502])
        return n

    def url(self, depth):
        n = Node()
        n.t = "url"
        n.items = []
        for _ in range(self.r.randrange(1, 7)):
            k = self.r.random()
            if k < 0.15:
                n.items.append((self.pattern(False), self.static()))
            elif k < 0.35 and depth < 3:
                n.items.append((self.pattern(True), self.url(depth + 1)))
            elif k < 0.45 and depth < 3:
                n.items.append((self.pattern(True), self.path(depth + 1)))
            else:
                n.items.append((self.pattern(self.r.random() < 0.25), self.leaf()))
        return n

    def static(self):
        n = Node()
        n.t = "static"
        n.text = b"S%d" % self.ids
        self.ids += 1
        n.code = self.r.choice([200, 404, 302, 500, 410])
        n.viaurl = self.r.random() < 0.5
        return n

    def path(self, depth):
        n = Node()
        n.t = "path"
        n.pat = self.pattern(True) if self.r.random() < 0.7 else self.r.choice(["^%s$" % self.lit().replace(".", "\\."), "", self.lit().replace(".", "\\."), "/"])
        n.inner = self.r.choice([self.leaf, self.leaf, self.static] + ([lambda: self.url(depth + 1)] if depth < 3 else []))()
        return n

    def chain(self):
        n = Node()
        n.t = "chain"
        n.items = [self.r.choice([lambda: self.url(0), lambda: self.path(0), lambda: self.leaf(0), self.leaf])() for _ in range(self.r.choice([1, 1, 2, 3, 4]))]
        return n


def emit(n, out):
    if n.t == "leaf":
        out.append("T leaf %d %d" % (n.id, n.ret))
    elif n.t == "static":
        out.append("T static %s %d" % (n.text.hex(), n.code))
    elif n.t == "url":
        out.append("T urlnew")
        for pat, h in n.items:
            p = pat.encode().hex() or "."
            if h.t == "static" and h.viaurl:
                out.append("T uaddstatic %s %s %d" % (p, h.text.hex(), h.code))
            else:
                emit(h, out)
                out.append("T %s %s" % ("uaddurl" if h.t == "url" else "uadd", p))
    elif n.t == "path":
        emit(n.inner, out)
        out.append("T path %s" % (n.pat.encode().hex() or "."))
    else:
        for i, h in enumerate(n.items):
            emit(h, out)
            if i:
                out.append("T chain")


class Unspecified(Exception):
    pass


class St:
    def __init__(self, path, caps):
        self.path, self.caps, self.log, self.resp, self.dirty = path, dict(caps), [], None, False


def dispatch(n, s):
    """-> result; 0 not processed"""
    if n.t == "leaf":
        s.log.append((n.id, None if s.dirty else s.path, None if s.dirty else dict(s.caps)))
        if n.ret == 2:
            s.resp = (200, b"leaf %d" % n.id)
        return n.ret
    if n.t == "static":
        s.resp = (n.code, n.text)
        return 2
    if n.t == "chain":
        for h in n.items:
            res = dispatch(h, s)
            if res:
                return res
        return 0
    if s.dirty:
        raise Unspecified()        # the path after a matching route that did not process is not specified
    if n.t == "path":
        m = re.search(n.pat, s.path)
        if not m:
            return 0
        s.path = s.path[m.end():]
        res = dispatch(n.inner, s)
    else:
        for pat, h in n.items:
            if not pat.startswith("^"):
                if s.path == pat:
                    s.path = ""
                    break
                continue
            m = re.search(pat, s.path)
            if m:
                s.path = s.path[m.end():]
                for i, v in enumerate(m.groups(), 1):
                    if v is not None:
                        s.caps[i] = v
                break
        else:
            return 0
        res = dispatch(h, s)
    if res == 0:
        s.dirty = True
    return res


def nleaves(n):
    if n.t == "leaf":
        return 1
    if n.t == "static":
        return 0
    if n.t == "path":
        return nleaves(n.inner)
    return sum(nleaves(h[1] if isinstance(h, tuple) else h) for h in n.items)


def run(ctx):
    b = srvlib.binary()
    r = ctx.rng
    ctx.rule = ("random route tables (exact strings, regular expressions with nested/optional/up to 15 groups, nested url objects, path and static handlers, chains of "
                "handlers, every result code) and paths aimed at them, with hostile query parameters; which handlers ran, the path and groups they saw, status and body are "
                "compared with a reference dispatcher; non-trivial = distinct (table, path) where some handler ran")
    cases, meta = [], {}
    for i in range(ctx.n(1500, 20000)):
        ge = Gen(r)
        root = ge.chain()
        ops = []
        emit(root, ops)
        ops.append("T root")
        exp = []
        for _ in range(r.randrange(2, 10)):
            segs = [r.choice(["a", "b", "ab", "x1", "login", "img", "0", "42", "A.B", "abc", "x", "x42", "AxB", "", "abcdefghijklmno", "c d", "é"]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
            path = "/".join(segs) + r.choice(["", "", "/"])
            q = r.choice([b"", b"", b"?1=evil", b"?a=1&2=evil&3=x"])
            meth = r.choice([b"GET", b"GET", b"POST"])
            s = St(path, {})
            if q == b"?1=evil":
                s.caps = {1: "evil"}
            elif q:
                s.caps = {2: "evil", 3: "x"}
            try:
                res = dispatch(root, s)
            except Unspecified:
                continue
            except RecursionError:
                raise
            if res in (-500, -501, -502, 0):
                s.resp = ({-500: 500, -501: 501, -502: 403, 0: 404}[res], None)
            wire = meth + b" /" + quote(path.encode()) + q + b" HTTP/1.1\r\n" + (b"Content-Length: 0\r\n" if meth == b"POST" else b"") + b"\r\n"
            ops.append("CONN")
            ops.append("RD " + wire.hex())
            exp.append((path, s, res))
        if not exp:
            continue
        cases.append((str(i), "\n".join(ops)))
        meta[str(i)] = (exp, nleaves(root))
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases)
    for cid, lines in live.items():
        exp, nl = meta[cid]
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        if "BADRE" in lines:
            raise core.HarnessError("generator made a bad pattern")
        reqs = []
        for l in lines:
            if l == "CONN":
                reqs.append([[], b""])
            elif l.startswith("LEAF "):
                f = l.split(" ")
                reqs[-1][0].append((int(f[1]), bytes.fromhex(f[2]).decode("utf-8", "replace"),
                                    {int(x.split("=")[0]): bytes.fromhex(x.split("=")[1]).decode("utf-8", "replace") for x in f[3:]}))
            elif l.startswith("OUT "):
                reqs[-1][1] += bytes.fromhex(l[4:])
            elif l.startswith("LEAFFREES "):
                if int(l[10:]) != nl:
                    ctx.violation("free", "%s handlers of %d were released" % (l[10:], nl), rep)
            elif l.startswith("RES ") and "allocs=0" not in l:
                ctx.violation("leak", "route table leaks: " + l, rep)
        for k, (path, s, res) in enumerate(exp):
            ctx.evals += 1
            log, out = reqs[k]
            if [x[0] for x in log] != [x[0] for x in s.log]:
                ctx.violation("handler", "path %r ran handlers %s, routes say %s" % (path, [x[0] for x in log], [x[0] for x in s.log]), rep)
                continue
            for got, want in zip(log, s.log):
                if want[1] is None:
                    continue
                if got[1] != want[1]:
                    ctx.violation("path", "path %r: handler %d sees %r, remaining path is %r" % (path, got[0], got[1], want[1]), rep)
                if got[2] != want[2]:
                    ctx.violation("groups", "path %r: handler %d sees groups %r, captured are %r" % (path, got[0], got[2], want[2]), rep)
            try:
                p = httpresp.parse(out, "GET", True)
            except httpresp.Bad as e:
                ctx.violation("malformed", str(e), rep)
                continue
            ctx.count("status_%d" % p.code)
            if p.code != s.resp[0]:
                ctx.violation("status:%d" % s.resp[0], "path %r: result %d answered %d, expected %d" % (path, res, p.code, s.resp[0]), rep)
            elif s.resp[1] is not None and p.body != s.resp[1]:
                ctx.violation("body", "path %r answered %r, expected %r" % (path, p.body[:60], s.resp[1]), rep)
            if s.log:
                ctx.distinct.add(hashlib.md5((texts[cid].split("CONN")[0] + path).encode()).digest())
    ctx.sample(texts[next(iter(texts))][:300])
    ctx.require(all(ctx.extra.get("status_%d" % k, 0) > 20 for k in (200, 404, 403, 500, 501)), "a status was not observed")
    ctx.assumptions = ["route patterns are ones on which POSIX extended and Python regular expressions agree",
                       "what later handlers of a chain see as path after a matching route whose inner handler did not process is not specified"]
