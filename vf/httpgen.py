"""Generators of HTTP requests with the values a handler must see, and of hostile streams."""
import random

METHODS = ["GET", "POST", "HEAD", "OPTIONS", "PROPFIND", "PUT", "DELETE", "MOVE", "MKCOL", "PROPPATCH", "PATCH"]
UNRES = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~"
TOK = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"


def rbytes(r, n, alphabet=None):
    if alphabet is None:
        return bytes(r.randrange(1, 256) for _ in range(n))
    return bytes(r.choice(alphabet) for _ in range(n))


def size(r, small=12, big=200, huge=0):
    """mostly small, sometimes around buffer sizes"""
    x = r.random()
    if x < 0.1:
        return 0
    if x < 0.7:
        return r.randrange(1, small + 1)
    if x < 0.95 or not huge:
        return r.randrange(1, big + 1)
    return r.randrange(big, max(huge, big + 1))


def pct(r, data, keep=UNRES, plus=False, always=0.1):
    out = bytearray()
    for c in data:
        if c == 0x20 and plus and r.random() < 0.6:
            out += b"+"
        elif c in keep and r.random() > always:
            out.append(c)
        else:
            out += (b"%%%02X" if r.random() < 0.5 else b"%%%02x") % c
    return bytes(out)


class Req:
    """A valid request together with what the handler has to observe."""
    def __init__(self):
        self.method = "GET"
        self.path = b"/"
        self.query = None          # list of (k, v) or None when there is no '?'
        self.version = "HTTP/1.1"
        self.headers = []          # (name, value)
        self.cookies = []          # expected cookies
        self.body = b""
        self.post = None           # list of (k, v) expected
        self.files = None          # list of (k, content)
        self.data = None           # raw body the handler reads
        self.put = None
        self.target = b"/"
        self.raw_headers = b""
        self.eol = b"\r\n"
        self.kind = ""

    def head(self):
        return self.method.encode() + b" " + self.target + b" " + self.version.encode() + self.eol + \
            self.raw_headers + self.eol

    def wire(self):
        return self.head() + self.body


def gen_text(r, n):
    """NUL free text with delimiters the parsers care about over-represented"""
    special = b"&=?%+;:\"'<>/\\ \t{}[]|,-\x01\x7f\x80\xff\xc3\xa9"
    return bytes(r.choice(special) if r.random() < 0.35 else r.choice(UNRES) for _ in range(n))


def gen_kv(r, n, huge=0):
    seen = []
    for _ in range(n):
        k = gen_text(r, r.randrange(1, 10))
        if seen and r.random() < 0.1:
            k = r.choice(seen)[0]
        seen.append((k, gen_text(r, size(r, huge=huge))))
    return seen


def enc_query(r, kv, maxp=0.3):
    parts = []
    for k, v in kv:
        e = pct(r, k, plus=True)
        if v == b"" and r.random() < 0.5:
            parts.append(e)
        else:
            ev = pct(r, v, keep=UNRES + b"=/:,?;@!*'()$", plus=True)
            parts.append(e + b"=" + ev)
    return b"&".join(parts)


def gen_path(r, huge=0):
    n = r.randrange(0, 4)
    segs = [gen_text(r, size(r, 8, 30)) for _ in range(n)]
    p = b"/" + b"/".join(segs)
    return p


def hvalue(r, n, raw=True):
    """header value: no CR, LF, NUL; no leading or trailing blank"""
    while True:
        v = gen_text(r, n)
        v = v.strip(b" \t\x0b\x0c")
        return v


RESERVED = {b"content-type", b"content-length", b"cookie", b"connection", b"host", b"accept-language",
            b"transfer-encoding", b"expect"}


def hname(r):
    while True:
        n = rbytes(r, r.randrange(1, 14), TOK)
        if n.lower() not in RESERVED:
            return n


def add_header(r, q, name, value, fold=0.1):
    ows = rbytes(r, r.choice([0, 1, 1, 1, 2, 3]), b" \t")
    raw = value
    if b" " in value and name.lower() not in RESERVED and r.random() < fold:
        # obsolete line folding: the line break and the blanks around it read as one space
        parts = [x for x in value.split(b" ")]
        if all(x and not x.startswith(b"\t") for x in parts[1:]):
            raw = parts[0]
            for x in parts[1:]:
                raw += (q.eol + rbytes(r, r.choice([1, 1, 2, 5]), b" \t") if r.random() < 0.6 else b" ") + x
    q.headers.append((name, value))
    q.raw_headers += name + b":" + ows + raw + q.eol


def gen_request(r, method=None, kind=None, huge=0, nheaders=None, version=None, eol=None):
    q = Req()
    kinds = ["none", "none", "urlenc", "urlenc", "multipart", "multipart", "multipart", "raw", "put", "getbody"]
    q.kind = kind or r.choice(kinds)
    q.eol = eol or (b"\r\n" if r.random() < 0.85 else b"\n")
    q.version = version or r.choice(["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"])
    if q.kind in ("urlenc", "multipart"):
        q.method = "POST"
    elif q.kind == "raw":
        q.method = r.choice(["POST", "PROPFIND", "PROPPATCH", "PATCH", "MOVE", "MKCOL", "DELETE", "OPTIONS"])
    elif q.kind == "put":
        q.method = "PUT"
    elif q.kind == "getbody":
        q.method = "GET"
    else:
        q.method = method or r.choice([m for m in METHODS if m != "PUT"])
    if method and q.kind in ("none",):
        q.method = method
    q.path = gen_path(r)
    q.target = pct(r, q.path, keep=UNRES + b"/!$'()*,;:@=")
    if q.target[:1] != b"/":
        q.target = b"/" + q.target[3:]      # keep the leading slash literal
    if r.random() < 0.6:
        q.query = gen_kv(r, r.randrange(0, 5), huge=huge and 2000)
        q.target += b"?" + enc_query(r, q.query)
    else:
        q.query = None
    # headers
    nh = nheaders if nheaders is not None else r.choice([0, 1, 2, 3, 5, 9, 20])
    names = []
    plan = []
    for _ in range(nh):
        n = hname(r) if not names or r.random() > 0.15 else r.choice(names).swapcase()
        names.append(n)
        plan.append((n, hvalue(r, size(r, 20, 200, huge=huge and 6000))))
    if r.random() < 0.5:
        plan.append((b"Host", b"localhost:8080"))
    if r.random() < 0.3:
        plan.append((r.choice([b"Accept-Language", b"accept-language"]),
                     r.choice([b"es", b"es-ES,es;q=0.8", b"en;q=0.3", b"de,en", b"pt-BR"])))
    if r.random() < 0.4:
        nc = r.randrange(1, 6)
        cs, s = [], b""
        for i in range(nc):
            k = rbytes(r, r.randrange(1, 8), TOK)
            if k.lower() == b"sessionid":
                k = b"x"
            v = rbytes(r, r.randrange(0, 12), UNRES + b"=/+%\"!")
            cs.append((k, v))
            if i == nc - 1 and not v:
                v = b"z"
                cs[-1] = (k, v)
            s += k + b"=" + v + (b";" + rbytes(r, r.choice([0, 1, 1, 2]), b" ") if i < nc - 1 else b"")
        plan.append((r.choice([b"Cookie", b"cookie", b"COOKIE"]), s))
        q.cookies = cs
    if r.random() < 0.3:
        plan.append((r.choice([b"Connection", b"connection"]),
                     r.choice([b"close", b"Close", b"keep-alive", b"Keep-Alive", b"CLOSE", b"KEEP-ALIVE"])))
    clname = r.choice([b"Content-Length", b"content-length", b"CONTENT-LENGTH"])
    ctname = r.choice([b"Content-Type", b"content-type"])
    if q.kind == "urlenc":
        kv = gen_kv(r, r.randrange(0, 7), huge=huge)
        if r.random() < 0.04:
            kv = [(rbytes(r, r.choice([1, 1, 2]), UNRES), b"")]
        q.body = enc_query(r, kv)
        q.post = kv
        plan.append((ctname, r.choice([b"application/x-www-form-urlencoded",
                                       b"application/x-www-form-urlencoded; charset=utf-8"])))
        plan.append((clname, b"%d" % len(q.body)))
        if not q.body:
            q.post = None
    elif q.kind == "multipart":
        bnd = rbytes(r, r.choice([1, 2, 8, 20, 40, 70]), UNRES)
        make_multipart(r, q, bnd, huge)
        plan.append((ctname, r.choice([b"multipart/form-data; boundary="] * 6 + [b"multipart/form-data;boundary=", b"multipart/mixed; boundary=", b"multipart/form-data; charset=utf-8; boundary="]) + bnd))
        plan.append((clname, b"%d" % len(q.body)))
    elif q.kind in ("raw", "getbody"):
        n = size(r, 50, 3000, huge=huge)
        q.body = bytes(r.randrange(256) for _ in range(n))
        q.data = q.body if n else None
        plan.append((clname, b"%d" % n))
        if r.random() < 0.7:
            plan.append((ctname, r.choice([b"application/json", b"text/xml", b"application/octet-stream", b"text/plain"])))
    elif q.kind == "put":
        n = size(r, 50, 3000, huge=huge)
        q.body = bytes(r.randrange(256) for _ in range(n))
        q.put = q.body
        plan.append((clname, b"%d" % n))
    r.shuffle(plan)
    for n, v in plan:
        add_header(r, q, n, v)
    return q


def make_multipart(r, q, bnd, huge=0, nparts=None):
    nparts = nparts if nparts is not None else r.choice([1, 1, 2, 3, 5, 9])
    eol = b"\r\n"
    q.post, q.files = [], []
    out = b"--" + bnd
    for _ in range(nparts):
        out += eol
        name = rbytes(r, r.randrange(1, 16), UNRES + b" &=/:?")
        isfile = r.random() < 0.45
        n = size(r, 30, 2500, huge=huge)
        # content that looks like line ends and boundaries
        body = bytearray()
        while len(body) < n:
            x = r.random()
            if x < 0.25:
                body += r.choice([b"\r\n", b"\n", b"\r", b"\r\r\n", b"\n\n", b"\r\n--", b"\n--", b"\r\n-", b"--", b"-"])
            elif x < 0.35:
                k = r.randrange(0, len(bnd))
                body += r.choice([b"\r\n--", b"\n--", b"--", b"\r\n\r\n--"]) + bnd[:k]
            elif isfile and x < 0.45:
                body.append(0)
            else:
                body.append(r.randrange(1, 256))
        body = bytes(body[:n]) if r.random() < 0.5 else bytes(body)
        # the delimiter itself may not occur in the content
        while (b"\n--" + bnd) in (b"\n" + body + b"\r\n"):
            body = body.replace(b"--" + bnd, b"--X")
            if (b"\n--" + bnd) in (b"\n" + body + b"\r\n"):
                body = body.replace(b"--", b"==")
        if body.startswith(b"--" + bnd):
            body = b"X" + body
        # "\r" then the closing "\r\n": fine.
        extra = r.random()
        hdrs = []
        def par(k, v):
            if v and r.random() < 0.12 and set(v) <= set(UNRES):      # a token needs no quotes
                return k + b"=" + v
            return k + b"=\"" + v + b"\""
        pars = [par(b"name", name)]
        fname = None
        if isfile:
            fname = rbytes(r, r.choice([0] + [r.randrange(1, 20)] * 9), UNRES + b" /()&")
            pars.append(par(b"filename", fname))
            if r.random() < 0.15:
                pars.reverse()
        cd = r.choice([b"Content-Disposition"] * 6 + [b"content-disposition", b"CONTENT-DISPOSITION"]) + b":" + r.choice([b" "] * 5 + [b""]) + b"form-data"
        for x in pars:
            cd += b";" + r.choice([b" "] * 5 + [b"", b"  "]) + x
        hdrs.append(cd)
        if isfile or extra < 0.2:
            hdrs.append(b"Content-Type: " + r.choice([b"text/plain", b"application/octet-stream", b"image/png"]))
        if extra > 0.85:
            hdrs.append(b"X-Extra: " + rbytes(r, 8, UNRES))
        if r.random() < 0.2:
            r.shuffle(hdrs)
        for h in hdrs:
            out += h + eol
        out += eol
        out += body
        out += eol + b"--" + bnd
        if isfile:
            q.post.append((name, fname))
            q.files.append((name, body))
        else:
            q.post.append((name, body))
    out += b"--" + (eol if r.random() < 0.7 else b"")
    q.body = out


# ------------------------------------------------------------------ hostile streams

DICT = [b"GET", b"POST", b"PUT", b" ", b"\r\n", b"\n", b"\r", b"\r\n\r\n", b":", b"Content-Length:", b"Content-Length: 0",
        b"Content-Length: -1", b"Content-Length: 99999999999999999999", b"Content-Length: 2147483648",
        b"Content-Length: 4294967296", b"Content-Length: 18446744073709551615", b"Content-Type: multipart/form-data; boundary=",
        b"Content-Type: multipart/form-data; boundary=a", b"Content-Disposition: form-data; name=\"a\"", b"name=", b"filename=",
        b"filename=\"", b"\"", b"--a", b"--", b"--a--", b"%", b"%0", b"%00", b"%ff", b"&", b"=", b"?", b"+", b"\x00", b"HTTP/1.1",
        b"HTTP/1.0", b"Cookie: ", b"Cookie: sessionid=", b"sessionid=", b";", b"Transfer-Encoding: chunked", b"\t", b" \t ",
        b"Connection: keep-alive", b"Expect: 100-continue", b"A" * 300, b"A" * 1500, b"/", b"//", b"/../"]


def mutate(r, s):
    s = bytearray(s)
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        op = r.randrange(9)
        n = len(s)
        i = r.randrange(n + 1)
        if op == 0 and n:
            s[r.randrange(n)] = r.randrange(256)
        elif op == 1:
            s[i:i] = r.choice(DICT)
        elif op == 2 and n:
            j = min(n, i + r.randrange(1, 20))
            del s[i:j]
        elif op == 3 and n:
            j = min(n, i + r.randrange(1, 60))
            s[i:i] = s[i:j] * r.choice([1, 2, 5])
        elif op == 4:
            s = s[:i]
        elif op == 5:
            s[i:i] = bytes([r.choice([0, 10, 13, 32, 37, 45, 58, 34, 255, 9])])
        elif op == 6 and n:
            j = r.randrange(n)
            s[i:i + 4] = s[j:j + 4]
        elif op == 7:
            d = r.choice(DICT)
            s[i:i + len(d)] = d
        elif op == 8:
            s[i:i] = r.choice([b"A", b"a=", b"%41", b"\r\n ", b" "]) * r.choice([10, 100, 1000, 4100, 8192])
    return bytes(s)


def split(r, data, style=None):
    """A segmentation of data."""
    style = style or r.choice(["one", "bytes", "two", "few", "crlf", "delim", "fixed"])
    if style == "one" or len(data) < 2:
        return [data]
    if style == "bytes":
        return [data[i:i + 1] for i in range(len(data))]
    if style == "two":
        i = r.randrange(1, len(data))
        return [data[:i], data[i:]]
    if style == "few":
        cuts = sorted(r.sample(range(1, len(data)), min(len(data) - 1, r.randrange(2, 9))))
    elif style == "crlf":
        cuts = [i for i in range(1, len(data)) if data[i - 1:i] in (b"\r", b"\n") and r.random() < 0.7]
    elif style == "delim":
        cuts = [i for i in range(1, len(data)) if (data[i - 1:i] in (b"\r", b"\n", b":", b" ", b"-", b"%", b"=") or
                                                   data[i:i + 1] in (b"\r", b"\n", b":", b" ", b"-")) and r.random() < 0.3]
    else:
        k = r.choice([2, 3, 7, 16, 64, 256, 1499, 1500, 1501])
        cuts = list(range(k, len(data), k))
    out, p = [], 0
    for c in cuts:
        out.append(data[p:c])
        p = c
    out.append(data[p:])
    return [x for x in out if x]
