"""Codecs: standard results, inverses, and no access out of bounds."""
import base64, hashlib, html, json, re, urllib.parse
from .. import core, build, srvlib

ALPH = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def text(r, n=None):
    n = r.choice([0, 1, 2, 3, 5, 10, 56, 57, 58, 60, 113, 114, 115, 200]) if n is None else n
    k = r.random()
    if k < 0.3:
        return bytes(r.randrange(1, 256) for _ in range(n))
    if k < 0.7:
        return bytes(r.choice(b"ab%+&<>\"'\\\r\n\t 01AZ\xc3\xa9\x7f\x01/=?u") for _ in range(n))
    return bytes(r.choice(b"abcXYZ0189") for _ in range(n))


def c_unquote(s):
    """reads adjacent C string literals"""
    out = b""
    pos = 0
    lits = re.findall(rb'"((?:[^"\\\n]|\\.)*)"', s)
    rest = re.sub(rb'"((?:[^"\\\n]|\\.)*)"', b"", s)
    if rest.strip(b"\n ") or not lits:
        return None
    for l in lits:
        i = 0
        while i < len(l):
            if l[i:i + 1] == b"\\":
                m = re.match(rb"[0-7]{1,3}", l[i + 1:])
                if m:
                    out += bytes([int(m.group(0), 8) & 255])
                    i += 1 + len(m.group(0))
                    continue
                c = l[i + 1:i + 2]
                t = {b"n": b"\n", b"r": b"\r", b"t": b"\t", b'"': b'"', b"\\": b"\\"}.get(c)
                if t is None:
                    return None
                out += t
                i += 2
            else:
                out += l[i:i + 1]
                i += 1
    return out


def run(ctx):
    b = build.harness("lib")
    r = ctx.rng
    ctx.rule = ("byte strings (all lengths around line and group limits, hostile characters) through every encoder and decoder, with exact-size output buffers of every "
                "small size, and arbitrary/mutated texts through every decoder; results compared with independent implementations; non-trivial = distinct (operation, input)")
    cases, meta = [], {}

    def add(op, kind, *data):
        i = str(len(cases))
        cases.append((i, op))
        meta[i] = (kind,) + data

    lens = list(range(0, 240)) + [511, 512, 513, 1024, 4097]
    for n in lens:
        d = r.randbytes(n)
        add("b64e " + (d.hex() or "."), "b64e", d)
        add("sha " + (d.hex() or "."), "sha", d)
    for _ in range(ctx.n(2500, 40000)):
        d = r.randbytes(r.randrange(0, 300))
        e = base64.b64encode(d)
        sty = r.random()
        if sty < 0.5 and e:           # whitespace anywhere, also at the end
            l = list(bytes([c]) for c in e)
            for _ in range(r.randrange(0, 6)):
                l.insert(r.choice([r.randrange(len(l) + 1), len(l), len(l)]), r.choice([b" ", b"\n", b"\r", b"\r\n"]))
            e = b"".join(l)
        add("b64d " + (e.hex() or "."), "b64d", d, e)
    for _ in range(ctx.n(4000, 60000)):
        n = r.choice([0, 1, 2, 3, 4, 4, 5, 8, 8, 12, 20, 64])
        k = r.random()
        if k < 0.5:
            e = bytes(r.choice(ALPH + b"==== \n\r\x80\xff-_!") for _ in range(n))
        else:
            e = bytes(r.randrange(1, 256) for _ in range(n))
        add("b64d " + (e.hex() or "."), "b64trash", e)
    for _ in range(ctx.n(2500, 40000)):
        t = text(r)
        add("qnew " + (t.hex() or "."), "qnew", t)
        m = r.choice([1, 2, 3, 4, 5, 6, 7, 10, 20, len(t) + 1, len(t) * 3 + 1, max(1, len(t) * 3), max(1, len(t))])
        add("q %s %d" % (t.hex() or ".", m), "q", t, m)
        add("cq " + (t.hex() or "."), "cq", t)
        m = r.choice([3, 4, 5, 6, 7, 8, 10, 20, len(t) + 3, len(t) * 5 + 3, max(3, len(t))])
        add("cqn %s %d" % (t.hex() or ".", m), "cqn", t, m)
        add("html " + (t.hex() or "."), "html", t)
        add("jq " + (t.hex() or "."), "jq", t)
        u = text(r)
        if r.random() < 0.7:
            q = b"".join(bytes([c]) if (48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123) and r.random() < 0.8 else b"+" if c == 32 and r.random() < 0.5 else
                         (b"%%%02x" if r.random() < 0.5 else b"%%%02X") % c for c in u)
            add("unq " + (q.hex() or "."), "unq", u, q)
        else:
            x = bytes(r.choice(b"%%%%+ab019AF\xff\x80gz ") for _ in range(r.randrange(0, 14)))
            add("unq " + (x.hex() or "."), "unqtrash", x)
        j = bytes(r.choice(b"\"\\\\\\uud83dDE00nrtbf/abc09\xc3\xa9") for _ in range(r.randrange(0, 24)))
        if r.random() < 0.6:
            j = b'"' + j + (b'"' if r.random() < 0.7 else b"")
        add("juq " + (j.hex() or "."), "juq", j)
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases)
    for cid, lines in live.items():
        m = meta[cid]
        k = m[0]
        ctx.evals += 1
        ctx.count("op_" + k)
        ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        o = {}
        for l in lines:
            f = l.split(" ")
            o[f[0]] = f[1] if len(f) > 1 else ""
        if "RES allocs=0" not in lines:
            ctx.violation("leak:" + k, "%s leaks: %s" % (k, lines[-3:]), rep)

        def hexv(x):
            return None if o.get(x) in (None, "NULL") else bytes.fromhex(o[x])
        R = hexv("r")
        if "noterm" in o:
            ctx.violation("noterm:" + k, "result is not terminated inside its buffer", rep)
        elif k == "b64e":
            if R is None or R.replace(b"\n", b"") != base64.b64encode(m[1]) or any(len(x) > 76 for x in R.split(b"\n")):
                ctx.violation("b64e", "encoding of %d bytes is wrong: %r" % (len(m[1]), R and R[:80]), rep)
            if m[1] and hexv("back") != m[1]:
                ctx.violation("b64-roundtrip", "decode(encode(x)) != x for %d bytes" % len(m[1]), rep)
        elif k == "b64d":
            if m[1]:
                if R != m[1] or int(o["len"]) != len(m[1]):
                    ctx.violation("b64d", "decoding %r gives %r, expected %r" % (m[2], R, m[1]), rep)
            elif R:
                ctx.violation("b64d", "decoding an empty text gives %r" % R, rep)
        elif k == "b64trash":
            t = re.sub(rb"[\r\n ]", b"", m[1])
            valid = len(t) % 4 == 0 and len(t) and re.match(rb"^[A-Za-z0-9+/]*={0,2}$", t)
            if valid:
                if R != base64.b64decode(t):
                    ctx.violation("b64d", "decoding %r gives %r" % (m[1], R), rep)
            elif t and R is not None:
                ctx.violation("b64-invalid", "invalid text %r is accepted as %r" % (m[1], R), rep)
        elif k == "sha":
            if R != hashlib.sha1(m[1]).digest():
                ctx.violation("sha1", "wrong digest", rep)
        elif k == "qnew":
            if hexv("back") != m[1] or R is None or re.search(rb"[^A-Za-z0-9%._~-]", R) or urllib.parse.unquote_to_bytes(R) != m[1]:
                ctx.violation("quote", "quoting %r gives %r, back %r" % (m[1], R, hexv("back")), rep)
        elif k == "q":
            full = b"".join(bytes([c]) if chr(c).isalnum() and c < 128 else b"%%%02X" % c for c in m[1])
            if R is None or not full.startswith(R) or int(o["ret"]) != len(R) or len(R) >= m[2] or (len(full) < m[2] and R != full):
                ctx.violation("quote-max", "quoting %r into %d bytes gives %r (returned %s)" % (m[1], m[2], R, o.get("ret")), rep)
            elif urllib.parse.unquote_to_bytes(R) != m[1][:len(urllib.parse.unquote_to_bytes(R))]:
                ctx.violation("quote-max", "cut inside an escape: %r" % R, rep)
        elif k in ("cq", "cqn"):
            v = c_unquote(R) if R is not None else None
            full = k == "cq"
            if v is None or (v != m[1] if full else not m[1].startswith(v)):
                ctx.violation("c-quote", "C quoting of %r%s gives %r, which a C compiler reads as %r" % (m[1], "" if full else " into %d bytes" % m[2], R, v), rep)
        elif k == "html":
            special = any(c in m[1] for c in b"<>&\"'")
            want = m[1].decode("latin-1")
            D = hexv("dup")
            for x in ([R] if special else []) + [D]:
                if x is None or html.unescape(x.decode("latin-1")) != html.unescape("") + want and not ambiguous(want) or re.search(rb"[<>\"']", x):
                    ctx.violation("html", "quoting %r gives %r" % (m[1], x), rep)
            if not special and R is not None:
                ctx.violation("html", "a text that needs no quoting gives %r" % R, rep)
        elif k == "jq":
            try:
                v = json.loads(R.decode("utf-8"))
                if v.encode() != m[1]:
                    ctx.violation("json-quote", "%r becomes %r" % (m[1], R), rep)
            except UnicodeDecodeError:
                pass
            except ValueError:
                ctx.violation("json-quote", "%r becomes %r, not a JSON string" % (m[1], R), rep)
            if hexv("back") != m[1] or int(o["ret"]) != len(R):
                ctx.violation("json-roundtrip", "%r reads back as %r" % (m[1], hexv("back")), rep)
        elif k == "unq":
            if R != m[1]:
                ctx.violation("unquote", "%r gives %r, expected %r" % (m[2], R, m[1]), rep)
        elif k == "juq":
            if m[1].startswith(b'"') and int(o["ret"]) >= 0:
                n = int(o["ret"])
                try:
                    v = json.loads(m[1][:n].decode("utf-8"))
                    if v.encode("utf-8", "surrogatepass") != R:
                        ctx.violation("json-unquote", "%r read as %r, is %r" % (m[1], R, v), rep)
                except (ValueError, UnicodeDecodeError):
                    if n > len(m[1]) or m[1][n - 1:n] != b'"':
                        ctx.violation("json-unquote", "unterminated %r was accepted, %d bytes read of %d" % (m[1], n, len(m[1])), rep)
    ctx.sample(texts["5"])
    ctx.require(len([k for k in ctx.extra if k.startswith("op_")]) >= 12, "an operation was not observed")


def ambiguous(t):
    return False
