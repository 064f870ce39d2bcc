"""JSON: writing and reading dictionaries."""
import hashlib, json
from .. import core, build, srvlib

WS = b" \t\r\n"


class Bad(Exception):
    pass


def lenient(t):
    """The most a reader may accept: objects of strings, unsigned integers and objects.  Tolerated beyond RFC 8259:
    a comma before the closing brace, control characters in strings, unknown escapes (taken verbatim), leading zeros."""
    pos = [0]

    def ws():
        while pos[0] < len(t) and t[pos[0]] in WS:
            pos[0] += 1

    def ch():
        return t[pos[0]:pos[0] + 1]

    def hex4(i):
        h = t[i:i + 4]
        if len(h) != 4 or any(c not in b"0123456789abcdefABCDEF" for c in h):
            raise Bad()
        return int(h, 16)

    def string():
        if ch() != b'"':
            raise Bad()
        pos[0] += 1
        out = b""
        while True:
            c = ch()
            if c == b"":
                raise Bad()
            pos[0] += 1
            if c == b'"':
                return out
            if c != b"\\":
                out += c
                continue
            e = ch()
            if e == b"":
                raise Bad()
            pos[0] += 1
            if e == b"u":
                u = hex4(pos[0])
                pos[0] += 4
                if u == 0 or 0xdc00 <= u < 0xe000:
                    raise Bad()
                if 0xd800 <= u < 0xdc00:
                    if t[pos[0]:pos[0] + 2] != b"\\u":
                        raise Bad()
                    u2 = hex4(pos[0] + 2)
                    pos[0] += 6
                    if not 0xdc00 <= u2 < 0xe000:
                        raise Bad()
                    u = 0x10000 + ((u - 0xd800) << 10) + (u2 - 0xdc00)
                out += chr(u).encode()
            else:
                out += {b"b": b"\b", b"f": b"\f", b"n": b"\n", b"r": b"\r", b"t": b"\t"}.get(e, e)

    def obj(depth):
        if ch() != b"{":
            raise Bad()
        pos[0] += 1
        out = []
        ws()
        while ch() != b"}":
            k = string()
            ws()
            if ch() != b":":
                raise Bad()
            pos[0] += 1
            ws()
            if ch() == b"{":
                v = obj(depth + 1)
            elif ch() == b'"':
                v = string()
            else:
                s = pos[0]
                while ch() and ch() in b"0123456789":
                    pos[0] += 1
                if s == pos[0]:
                    raise Bad()
                v = t[s:pos[0]]
            out.append((k, v))
            ws()
            if ch() == b"}":
                break
            if ch() != b",":
                raise Bad()
            pos[0] += 1
            ws()
        pos[0] += 1
        return out
    ws()
    v = obj(0)
    ws()
    if pos[0] != len(t):
        raise Bad()
    return v


def norm(pairs):
    """as the dictionary shows it: sorted by key, stable"""
    return [(k, norm(v) if isinstance(v, list) else v) for k, v in sorted(pairs, key=lambda x: x[0])]


def strict(t):
    """Python's reader; None if not representable in a dictionary of strings"""
    class No(Exception):
        pass

    def hook(p):
        for k, v in p:
            if not isinstance(v, (str, list)) or (isinstance(v, str) and not v.startswith("\1")) and False:
                raise No()
        return [(k.encode("utf-8"), v if isinstance(v, list) else v.encode("utf-8")) for k, v in p]

    def no(*a):
        raise No()

    def num(s):
        if s.startswith("-"):
            raise No()
        return s
    try:
        v = json.loads(t.decode("utf-8"), object_pairs_hook=hook, parse_int=num, parse_float=no, parse_constant=no)
        if not isinstance(v, list):
            return None
        if b"\\u0000" in t or b"[" in t or b"null" in t or b"true" in t or b"false" in t:
            return None
        return v
    except (ValueError, No, AttributeError, RecursionError):
        return None


def dumpof(lines, start):
    """rebuild nested pairs from a dump"""
    stack = [[]]
    for l in lines[start:]:
        if l == "enddump":
            break
        f = l.split(" ")
        if f[0] != "e":
            continue
        depth = int(f[1])
        while len(stack) > depth + 1:
            stack.pop()
        k = bytes.fromhex(f[2])
        if f[3] == "D":
            n = []
            stack[-1].append((k, n))
            stack.append(n)
        else:
            stack[-1].append((k, bytes.fromhex(f[3][1:])))
    return stack[0]


EDGES = [0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f5ff, 0x1f600, 0x1f9ff, 0xfffff, 0x100000, 0x10ffff]


def cp(r):
    """a code point: the edges of the encodings, or any"""
    while True:
        c = r.choice(EDGES) if r.random() < 0.6 else r.randrange(1, r.choice([0x80, 0x800, 0x10000, 0x110000]))
        if not 0xd800 <= c < 0xe000:
            return c


def word(r):
    k = r.random()
    if k < 0.25:
        return bytes(r.randrange(1, 128) for _ in range(r.randrange(0, 12)))
    if k < 0.5:
        return "".join(r.choice("aé€𝄞\u007f\u0080\uffff\n\t\"\\/<>\b\f\r\x01\x1f'") for _ in range(r.randrange(0, 12))).encode()
    if k < 0.6:
        return "".join(chr(cp(r)) for _ in range(r.randrange(0, 6))).encode()
    if k < 0.65:
        return b"x" * r.choice([15, 16, 17, 1023, 1024, 1025, 3000])
    return bytes(r.choice(b"abcdef0189_ ") for _ in range(r.randrange(0, 10)))


def tree(r, depth=0):
    out = []
    used = set()
    for _ in range(r.choice([0, 1, 2, 3, 6, 12] if depth < 3 else [0, 1, 2])):
        k = word(r)
        if k in used:
            continue
        used.add(k)
        out.append((k, tree(r, depth + 1) if r.random() < (0.3 if depth < 5 else 0) else word(r)))
    return out


def build_ops(t, ops, slot):
    ops.append("new %d" % slot)
    for k, v in t:
        if isinstance(v, list):
            build_ops(v, ops, slot + 1)
            ops.append("addd %d %s %d 4" % (slot, k.hex() or ".", slot + 1))
        else:
            ops.append("add %d %s %s 54" % (slot, k.hex() or ".", v.hex() or "."))


def enc(r, s):
    """random spelling of a string (valid UTF-8)"""
    out = b'"'
    for c in s.decode("utf-8"):
        x = r.random()
        o = ord(c)
        if c in '"\\' or o < 32:
            short = {'"': b'\\"', "\\": b"\\\\", "\n": b"\\n", "\r": b"\\r", "\t": b"\\t", "\b": b"\\b", "\f": b"\\f"}.get(c)
            out += short if short and x < 0.7 else b"\\u%04x" % o
        elif x < (0.5 if o > 127 else 0.15):
            if o >= 0x10000:
                o -= 0x10000
                out += b"\\u%04X\\u%04x" % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff))
            else:
                out += (b"\\u%04x" if r.random() < 0.5 else b"\\u%04X") % o
        elif c == "/" and x < 0.5:
            out += b"\\/"
        else:
            out += c.encode()
    return out + b'"'


def spell(r, t):
    def w():
        return bytes(r.choice(WS) for _ in range(r.choice([0, 0, 0, 1, 2])))
    out = w() + b"{" + w()
    for i, (k, v) in enumerate(t):
        if i:
            out += w() + b"," + w()
        out += enc(r, k) + w() + b":" + w()
        out += spell(r, v) if isinstance(v, list) else v if v.isdigit() and v == str(int(v)).encode() and r.random() < 0.5 else enc(r, v)
    return out + w() + b"}" + w()


def mutate(r, t):
    t = bytearray(t)
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        k = r.random()
        p = r.randrange(len(t) + 1)
        if k < 0.3:
            t = t[:p] if r.random() < 0.6 else t[p:]
        elif k < 0.5 and t:
            t[p % len(t)] = r.choice(b'{}":,\\u0d8 a\xff\n')
        elif k < 0.7:
            t[p:p] = r.choice([b'"', b"{", b"}", b",", b":", b"\\", b"\\u", b"\\ud83d", b"\\ud800\\ue000", b"\\udbff\\udbff", b"\\ud83d\\u0041", b"\\udc00", b"\\ude00\\ud83d", b"\\uDBFF\\uDFFF", b"\\ud800\\uffff", b"\\u00", b"1", b" ", b'"a":', b"null", b"[1]", b"-1", b"1.5", b"0012", b"{}", b'"\\', b"\\x"])
        elif k < 0.85 and t:
            q = r.randrange(1, 6)
            del t[p:p + q]
        else:
            t += t[p:p + 8]
        if not t:
            t = bytearray(b"{")
    return bytes(t).replace(b"\0", b"0")


def run(ctx):
    b = build.harness("lib")
    r = ctx.rng
    ctx.rule = ("random dictionaries (nested, any characters) written, read by Python's json and read back; random spellings of valid documents; mutated, truncated and "
                "deeply nested texts given to the reader and judged against Python's json and a lenient reference grammar; non-trivial = distinct text that reached the reader")
    cases, meta = [], {}
    for i in range(ctx.n(2500, 40000)):
        t = tree(r)
        ops = []
        build_ops(t, ops, 0)
        ops += ["json 0", "dump 0", "free 0"]
        cases.append(("w%d" % i, "\n".join(ops)))
        meta["w%d" % i] = t
    for i in range(ctx.n(6000, 120000)):
        t = spell(r, tree(r))
        m = r.random() < 0.65
        if m:
            t = mutate(r, t)
        if r.random() < 0.02:
            n = r.choice([10, 99, 100, 101, 130, 250, 400, 490, 900, 30000, 150000])
            t = b'{"a":' * n + b"1" + b"}" * r.choice([n, n - 1, 0])
        cases.append(("r%d" % i, "from 0 %s\ndump 0\njson 0\nfree 0" % (t.hex() or ".")))
        meta["r%d" % i] = t
    texts = dict(cases)
    res = core.run_cases(ctx, b, cases, timeout=300)
    live = srvlib.die_report(ctx, res, cases)
    back = []
    for cid, lines in live.items():
        ctx.evals += 1
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        if "RES allocs=0" not in lines:
            ctx.violation("leak", "memory left after reading or writing JSON: %s" % lines[-2:], rep)
        if cid[0] == "w":
            t = meta[cid]
            js = next((l[5:] for l in lines if l.startswith("json ")), "NULL")
            if js == "NULL":
                ctx.violation("write", "no JSON for a dictionary", rep)
                continue
            js = bytes.fromhex(js)
            ctx.count("written")
            v = strict(js)
            if b"[" not in js and b"null" not in js and b"true" not in js and b"false" not in js and (v is None or norm(v) != norm(t)):
                ctx.violation("write", "the JSON written is not the dictionary: %r" % js[:300], rep)
            back.append((cid, js, t))
        else:
            t = meta[cid]
            ctx.distinct.add(hashlib.md5(t).digest())
            ok = any(l == "from 1" for l in lines)
            ctx.count("accepted" if ok else "rejected")
            got = dumpof(lines, 0)
            try:
                ref = lenient(t)
            except Bad:
                ref = None
            except RecursionError:
                ctx.count("deep")
                continue
            st = strict(t) if len(t) < 100000 else None
            if ok and ref is None:
                ctx.violation("accepts-invalid", "%r is read as %r" % (t[:200], got), rep)
            elif ok and norm(ref) != norm(got):
                ctx.violation("misread", "%r is read as %r" % (t[:200], str(got)[:300]), rep)
            elif not ok and st is not None and ref is not None and t.count(b"{") < 500:
                ctx.violation("rejects-valid", "%r is rejected" % t[:300], rep)
            if ok and st is not None and norm(st) != norm(got):
                ctx.violation("misread", "%r is read as %r" % (t[:200], str(got)[:300]), rep)
    cases2 = [(cid, "from 0 %s\ndump 0\nfree 0" % js.hex()) for cid, js, t in back]
    m2 = {cid: (js, t) for cid, js, t in back}
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases2, timeout=300), cases2)
    for cid, lines in live.items():
        js, t = m2[cid]
        ctx.evals += 1
        ctx.count("round_trips")
        if "from 1" not in lines or norm(dumpof(lines, 0)) != norm(t):
            ctx.violation("roundtrip", "what was written does not read back: %r" % js[:300], "\n".join(dict(cases2)[cid].splitlines()))
    ctx.sample(texts["r0"][:300])
    ctx.require(all(ctx.extra.get(k, 0) > 500 for k in ("accepted", "rejected", "round_trips")), "too few documents")
    ctx.assumptions = ["texts are NUL-terminated; objects nested deeper than 500 may be refused",
                       "tolerated beyond RFC 8259: comma before the closing brace, raw control characters, unknown escapes, leading zeros"]
