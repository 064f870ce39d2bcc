"""A strict reader of HTTP responses: what a client can tell from the bytes it received."""
import re


class Bad(Exception):
    pass


class Resp:
    pass


def parse(buf, method="GET", closed=False):
    """-> Resp(code, version, headers, body, framing, complete, rest). framing: length|chunked|close|none"""
    m = buf.find(b"\r\n\r\n")
    if m < 0:
        raise Bad("no end of headers in %r" % buf[:200])
    head = buf[:m]
    rest = buf[m + 4:]
    if re.search(rb"(?<!\r)\n|\r(?!\n)", head):
        raise Bad("bare CR or LF in the header block: %r" % head[:400])
    lines = head.split(b"\r\n")
    sl = re.match(rb"^(HTTP/1\.[01]) (\d{3}) ([^\r\n]*)$", lines[0])
    if not sl:
        raise Bad("bad status line %r" % lines[0][:100])
    o = Resp()
    o.version, o.code, o.reason = sl.group(1).decode(), int(sl.group(2)), sl.group(3)
    o.headers = []
    for l in lines[1:]:
        k = re.match(rb"^([!#$%&'*+.^_`|~0-9A-Za-z-]+):[ \t]*(.*?)[ \t]*$", l, re.S)
        if not k:
            raise Bad("bad header line %r" % l[:200])
        o.headers.append((k.group(1), k.group(2)))
    cl = [v for n, v in o.headers if n.lower() == b"content-length"]
    te = [v for n, v in o.headers if n.lower() == b"transfer-encoding"]
    if cl and te:
        raise Bad("both Content-Length and Transfer-Encoding")
    if len(cl) > 1:
        raise Bad("several Content-Length %r" % cl)
    o.connection = [v.lower() for n, v in o.headers if n.lower() == b"connection"]
    o.head_len = m + 4
    if method == "HEAD" or o.code == 304 or 100 <= o.code < 200 or o.code == 204:
        o.framing, o.body, o.rest, o.complete = "none", b"", rest, True
        return o
    if te:
        if te[0].lower() != b"chunked":
            raise Bad("transfer-encoding %r" % te)
        o.framing = "chunked"
        body, p = b"", 0
        while True:
            e = rest.find(b"\r\n", p)
            if e < 0:
                o.body, o.rest, o.complete = body, b"", False
                return o
            if not re.match(rb"^[0-9A-Fa-f]+$", rest[p:e]):
                raise Bad("bad chunk size line %r" % rest[p:e][:60])
            n = int(rest[p:e], 16)
            p = e + 2
            if n == 0:
                if rest[p:p + 2] != b"\r\n":
                    if len(rest) - p < 2:
                        o.body, o.rest, o.complete = body, b"", False
                        return o
                    raise Bad("no CRLF after the last chunk: %r" % rest[p:p + 40])
                o.body, o.rest, o.complete = body, rest[p + 2:], True
                return o
            body += rest[p:p + n]
            if len(rest) < p + n + 2:
                o.body, o.rest, o.complete = body, b"", False
                return o
            if rest[p + n:p + n + 2] != b"\r\n":
                raise Bad("no CRLF after a chunk of %d: %r" % (n, rest[p + n:p + n + 20]))
            p += n + 2
    if cl:
        if not re.match(rb"^\d+$", cl[0]):
            raise Bad("bad Content-Length %r" % cl[0])
        n = int(cl[0])
        o.framing = "length"
        o.length = n
        o.body, o.rest, o.complete = rest[:n], rest[n:], len(rest) >= n
        return o
    o.framing = "close"
    o.body, o.rest, o.complete = rest, b"", closed
    return o


def nodate(b):
    return re.sub(rb"\r\nDate: [^\r]*\r\n", b"\r\nDate: X\r\n", b)
