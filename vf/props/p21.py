"""WebSocket messages arrive intact and in order, and every frame sent is valid."""
import re, base64, hashlib
from .. import core, build, srvlib, httpresp

GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
LENS = [0, 1, 2, 3, 4, 5, 7, 8, 100, 124, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 1000, 1013, 1014, 1015, 1020, 1022, 1023, 1024, 1025, 1026,
        2046, 2047, 2048, 2049, 3072, 4096, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 70000, 131072]

MIX = ("websocket",)      # kinds of handlers also run concurrently (harness/mix.h)


def frame(r, op, data, fin=True, mask=True, form=None):
    n = len(data)
    h = bytes([(0x80 if fin else 0) | op])
    mb = 0x80 if mask else 0
    if form is None:
        form = 0 if n < 126 else 2 if n < 65536 else 8
    if form == 0:
        h += bytes([mb | n])
    elif form == 2:
        h += bytes([mb | 126]) + n.to_bytes(2, "big")
    else:
        h += bytes([mb | 127]) + n.to_bytes(8, "big")
    if mask:
        k = r.choice([b"\0\0\0\0", b"\xff\xff\xff\xff", r.randbytes(4), r.randbytes(4), r.randbytes(4)])
        h += k
        kk = (k * (n // 4 + 1))[:n]
        data = (int.from_bytes(data, "big") ^ int.from_bytes(kk, "big")).to_bytes(n, "big") if n else b""
    return h + data


def parse_frames(b):
    """the server's frames, as a strict client reads them -> (list of (op, payload), rest, error)"""
    out = []
    i = 0
    while i < len(b):
        if len(b) - i < 2:
            return out, b[i:], None
        b0, b1 = b[i], b[i + 1]
        if b0 & 0x70:
            return out, b[i:], "reserved bits in frame %d: %02x" % (len(out), b0)
        op = b0 & 15
        if not b0 & 0x80:
            return out, b[i:], "unfinished fragment"
        if op not in (1, 2, 8, 9, 10):
            return out, b[i:], "opcode %d in frame %d" % (op, len(out))
        if b1 & 0x80:
            return out, b[i:], "masked server frame"
        n = b1 & 127
        j = i + 2
        if n == 126:
            if len(b) < j + 2:
                return out, b[i:], None
            n = int.from_bytes(b[j:j + 2], "big")
            j += 2
            if n < 126:
                return out, b[i:], "length %d not in its shortest form" % n
        elif n == 127:
            if len(b) < j + 8:
                return out, b[i:], None
            n = int.from_bytes(b[j:j + 8], "big")
            j += 8
            if n < 65536:
                return out, b[i:], "length %d not in its shortest form" % n
            if n >> 63:
                return out, b[i:], "length over 63 bits"
        if op >= 8 and n > 125:
            return out, b[i:], "control frame of %d bytes" % n
        if len(b) < j + n:
            return out, b[i:], None
        out.append((op, b[j:j + n]))
        i = j + n
    return out, b"", None


def cut(r, b, style=None):
    """segments of b"""
    style = r.choice(["one", "bytes", "small", "mid", "big", "hdr"]) if style is None else style
    if style == "one" or not b:
        return [b]
    out, i = [], 0
    if style == "bytes" and len(b) > 3000:
        style = "mid"
    while i < len(b):
        n = {"bytes": 1, "small": r.randrange(1, 8), "mid": r.choice([1, 2, 3, 10, 100, 1000, 1500]), "big": r.randrange(1, 20000),
             "hdr": r.choice([1, 1, 2, 3, 4, 4096])}[style]
        out.append(b[i:i + n])
        i += n
    return out


def handshake(r):
    key = base64.b64encode(r.randbytes(16)) if r.random() < 0.9 else bytes(r.choice(b"abcXYZ019+/=-") for _ in range(r.randrange(1, 120)))
    hd = [(b"Host", b"a"), (b"Upgrade", r.choice([b"websocket", b"WebSocket", b"WEBSOCKET"])), (b"Connection", b"Upgrade"),
          (b"Sec-WebSocket-Key", key), (b"Sec-WebSocket-Version", b"13")]
    prot = None
    if r.random() < 0.4:
        prot = [bytes(r.choice(b"abcdef.-0123") for _ in range(r.randrange(1, 12))) for _ in range(r.randrange(1, 4))]
        hd.append((b"Sec-WebSocket-Protocol", r.choice([b", ", b",", b" , "]).join(prot)))
    r.shuffle(hd)
    hd = [(r.choice([k, k.lower(), k.upper()]), v) for k, v in hd]
    return key, prot, hd


def hs_bytes(hd, method=b"GET"):
    return method + b" /chat HTTP/1.1\r\n" + b"".join(k + b": " + v + b"\r\n" for k, v in hd) + b"\r\n"


def payload(r, n):
    if n > 4000:
        return (r.randbytes(997) * (n // 997 + 1))[:n]
    return r.randbytes(n)


def size(r, big=True):
    x = r.random()
    if x < 0.35:
        return r.randrange(0, 140)
    if x < 0.75:
        return r.choice([l for l in LENS if big or l < 5000])
    return r.randrange(0, 3000)


def gen_ok(r, i, small):
    """a valid conversation -> wire, model"""
    frames = []          # ("data", effective op, payload) | ("ping", payload) | ("pong",)
    wire = b""
    nmsg = r.choice([1, 1, 2, 3, 5, 10])
    for _ in range(nmsg):
        op = r.choice([1, 2])
        nf = r.choice([1, 1, 1, 2, 3, 6])
        for k in range(nf):
            while r.random() < 0.2:
                if r.random() < 0.7:
                    p = payload(r, r.choice([0, 1, 2, 4, 5, 60, 124, 125]))
                    frames.append(("ping", p))
                    wire += frame(r, 9, p)
                else:
                    p = payload(r, r.choice([0, 1, 3, 125]))
                    frames.append(("pong", p))
                    wire += frame(r, 10, p)
            n = i if (small and k == 0) else size(r, big=nmsg < 4)
            d = payload(r, n)
            form = None
            if r.random() < 0.05:
                form = 8                      # longer than needed; the server does not have to mind
            frames.append(("data", op, d))
            wire += frame(r, op if k == 0 else 0, d, fin=k == nf - 1, form=form)
    close = None
    x = r.random()
    if x < 0.3:
        close = r.choice([1000, 1001, 3000, 4999]).to_bytes(2, "big")
        wire += frame(r, 8, close + payload(r, r.choice([0, 0, 5, 123])))
    elif x < 0.4:
        close = b""
        wire += frame(r, 8, b"")
    return wire, frames, close


def lcg(n, x):
    out = bytearray(n)
    x &= 0xffffffff
    for i in range(n):
        x = (x * 1103515245 + 12345 + (x >> 16)) & 0xffffffff
        out[i] = x & 255
    return bytes(out)


def gen_ops(r):
    """callback scripts; read modes: all (exactly what is ready), part, beyond"""
    mode = r.choice(["all", "all", "part", "beyond"])
    lines = []
    for _ in range(r.randrange(1, 5)):
        o = []
        if mode == "all":
            o.append("rd 0")
        elif mode == "part":
            o.append("rd %d" % r.choice([1, 2, 3, 5, 100, 125, 1024, 5000]))
        else:
            o.append("rdx %d" % r.choice([1, 4, 100, 700, 3000, 70000]))
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            w = r.random()
            n = size(r)
            if w < 0.5:
                o.append("wn %d %d" % (n, r.randrange(1, 1 << 30)))
            elif w < 0.7:
                o.append("w %s" % r.randbytes(min(n, 2000)).hex())
            else:
                n = r.choice([0, 1, 100, 120, 122, 123, 124, 400] + list(range(500, 520)) + [1020, 1024, 3000, 66000])
                o.append("pf %s %d" % ((b"abcdefghijklmnopqrstuvw" * (n // 23 + 1))[:n].hex(), r.choice([0, 7, -12345, 99])))
        if r.random() < 0.1:
            o = o[1:] + o[:1]
        lines.append("|".join(o))
    return mode, lines


def roomy(wire, ops):
    """long conversations are not read byte by byte"""
    if len(wire) <= 20000:
        return ops
    return [re.sub(r"\brd(x?) ([1-9][0-9]?|100)(?=\||$)", lambda m: "rd%s %d" % (m.group(1), 1000 + int(m.group(2))), o) for o in ops]


def case_text(hs, segs, ops, first=None, end=0, wplan=None):
    t = ["HS " + hs.hex()] + ["RD " + s.hex() for s in segs if s] + ["EOF %d" % end]
    if wplan:
        t.append("WPLAN " + wplan)
    if first:
        t.append("FIRST " + first)
    t += ["OPS " + o for o in ops]
    return "\n".join(t)


class Ob:
    def __init__(self, lines):
        self.cb, self.reads, self.writes, self.closes, self.neg = [], [], [], [], 0
        self.out = b""
        self.ret = self.res = None
        self.ws = self.nows = False
        self.hslen = 0
        self.rneg, self.big, self.udbad = [], [], False
        self.log = []
        for l in lines:
            f = l.split(" ")
            if f[0] == "CB":
                if int(f[1]) < 0:
                    self.neg += 1
                else:
                    self.cb.append((int(f[1]), int(f[2]), int(f[3])))
                    self.log.append(("cb",) + self.cb[-1])
            elif f[0] == "READ":
                self.reads.append((int(f[1]), int(f[2]), bytes.fromhex(f[3] if len(f) > 3 else "")))
                self.log.append(("rd",) + self.reads[-1])
            elif f[0] == "W":
                self.writes.append((int(f[1]), int(f[2]), bytes.fromhex(f[3] if len(f) > 3 else "")))
                self.log.append(("w",) + self.writes[-1])
            elif f[0] == "CL":
                self.closes.append(bytes.fromhex(f[1]))
            elif f[0] == "WS":
                self.ws = True
                self.hslen = int(f[1])
            elif f[0] == "NOWS":
                self.nows = True
            elif f[0] == "WBIG":
                self.big.append((int(f[1]), int(f[2])))
            elif f[0] == "UDBAD":
                self.udbad = True
            elif f[0] == "RNEG":
                self.rneg.append(int(f[1]))
            elif f[0] == "OUT":
                self.out = bytes.fromhex(f[1] if len(f) > 1 else "")
            elif f[0] == "RET":
                self.ret = dict(x.split("=") for x in f[2:])
                self.st = int(f[1])
            elif f[0] == "RES":
                self.res = dict(x.split("=") for x in f[1:])


def split_hs(out):
    i = out.find(b"\r\n\r\n")
    return (out, b"") if i < 0 else (out[:i + 4], out[i + 4:])


def check_hs(ctx, head, key, prot, rep):
    lines = head.split(b"\r\n")
    if not lines[0].startswith(b"HTTP/1.1 101 "):
        return ctx.violation("handshake", "status line %r" % lines[0], rep)
    h = {}
    for l in lines[1:]:
        if l:
            k, _, v = l.partition(b":")
            h.setdefault(k.strip().lower(), []).append(v.strip())
    acc = base64.b64encode(hashlib.sha1(key + GUID).digest())
    if h.get(b"sec-websocket-accept") != [acc]:
        ctx.violation("accept", "accept key %r, the standard says %r" % (h.get(b"sec-websocket-accept"), acc), rep)
    if [x.lower() for x in h.get(b"upgrade", [])] != [b"websocket"]:
        ctx.violation("handshake", "Upgrade: %r" % h.get(b"upgrade"), rep)
    if b"upgrade" not in [x.strip().lower() for v in h.get(b"connection", []) for x in v.split(b",")]:
        ctx.violation("handshake", "Connection: %r" % h.get(b"connection"), rep)
    sp = h.get(b"sec-websocket-protocol")
    if prot and sp is None:
        ctx.violation("protocol", "none of the subprotocols %r was selected" % prot, rep)
    elif sp is not None and (not prot or len(sp) != 1 or sp[0] not in prot):
        ctx.violation("protocol", "subprotocol %r, the client offered %r" % (sp, prot), rep)
    ctx.count("handshakes")


def common(ctx, o, rep, kind):
    if o.res is None or o.ret is None:
        ctx.violation("noresult", "the case reported nothing", rep)
        return False
    if o.res["allocs"] != "0" or o.res["fds"] != "0":
        ctx.violation("leak:" + kind, "after the connection: %s" % o.res, rep)
    if o.ret["closed"] != "1":
        ctx.violation("closed", "the transport was closed %s times" % o.ret["closed"], rep)
    return True


def valid_out(ctx, o, rep, body, kind, failed):
    fr, rest, err = parse_frames(body)
    if err:
        ctx.violation("badframe:" + kind, "the server sent an invalid frame: %s" % err, rep)
        return None
    if rest and not failed:
        ctx.violation("partframe:" + kind, "the server's last frame is incomplete: %d bytes %r" % (len(rest), rest[:20]), rep)
        return None
    cl = [k for k, f in enumerate(fr) if f[0] == 8]
    if len(cl) > 1 or (cl and (cl[0] != len(fr) - 1 or rest)):
        ctx.violation("afterclose:" + kind, "frames after the close frame: %r" % [(a, b[:10]) for a, b in fr[cl[0]:]], rep)
        return None
    for op, p in fr:
        if op == 8 and len(p) == 1:
            ctx.violation("badclose", "close frame of one byte", rep)
    return fr


def run(ctx):
    b = build.harness("ws")
    r = ctx.rng
    ctx.rule = ("conversations after a generated handshake: messages of 0..131072 bytes (every size 0..1100 and around all length and buffer borders), fragmented, "
                "with pings, pongs and closes in between, masked, cut in 6 styles; callbacks reading all, part or beyond what is ready and answering with "
                "write/printf of any size through short writes; plus conversations cut anywhere, failing writes, invalid frames and noise. Bytes read, callback "
                "sizes, frames sent (strict client parser), pongs, close answer, end notice and heap compared with the model; non-trivial = distinct "
                "conversation in which data was delivered or a control frame answered")
    cases, meta = [], {}

    def add(kind, text, m):
        cid = str(len(cases))
        cases.append((cid, text))
        meta[cid] = (kind, m)

    # valid conversations
    nok = ctx.n(2600, 30000)
    for i in range(nok):
        key, prot, hd = handshake(r)
        small = i < 1100
        wire, frames, close = gen_ok(r, i, small)
        mode, ops = gen_ops(r)
        ops = roomy(wire, ops)
        if small and r.random() < 0.7:
            ops = ["%s|wn %d %d" % ("rd %d" % r.choice([1, 5, 100, 1024]) if mode == "part" and len(wire) < 20000 else "rd 0", i, i + 1)]
            mode = "all" if ops[0].startswith("rd 0|") else "part"
        first = None
        if r.random() < 0.3:
            first = "wn %d %d" % (size(r), i + 7)
        if r.random() < 0.1:
            first = (first + "|" if first else "") + "ud"
        if i % 331 == 5:
            first = (first + "|" if first else "") + "wbig %d" % r.choice([100000, (1 << 20) + 3, (1 << 24) - 1, 1 << 24, (1 << 24) + 12345])
        if r.random() < 0.1:
            ops = [o + "|ud" if r.random() < 0.5 else o for o in ops]
        wplan = r.choice([None, None, "1,1,1,1,1,1,1,1,1,1", "1,0,0,2,0,700*", "100*", "1023*", "1024*", "0,0,0,3,5,0,2,0,0*"])
        add("ok", case_text(hs_bytes(hd), cut(r, wire), ops, first, r.choice([0, 0, 1]), wplan), (key, prot, frames, close, mode, wire, ops))
        # the handshake's own answer goes through the same short writes
    # cut anywhere
    for i in range(ctx.n(900, 12000)):
        key, prot, hd = handshake(r)
        wire, frames, close = gen_ok(r, r.randrange(0, 300), True)
        k = r.randrange(0, len(wire) + 1) if r.random() < 0.5 else r.randrange(0, min(len(wire), 60) + 1)
        mode, ops = gen_ops(r)
        ops = roomy(wire, ops)
        add("cut", case_text(hs_bytes(hd), cut(r, wire[:k]), ops, None, r.choice([0, 1])), (key, prot, frames, close, mode, wire[:k], ops))
    # writes that fail
    for i in range(ctx.n(400, 5000)):
        key, prot, hd = handshake(r)
        wire, frames, close = gen_ok(r, r.randrange(0, 300), True)
        mode, ops = gen_ops(r)
        ops = roomy(wire, ops)
        plan = ",".join(str(r.choice([0, 0, 1, 2, 3, 700])) for _ in range(r.randrange(0, 12))) + ",-1"
        add("wfail", case_text(hs_bytes(hd), cut(r, wire), ops, None, 0, plan.lstrip(",")), (key, prot, frames, close, mode, wire, ops))
    # the application closes, stops or asks to close half way
    for i in range(ctx.n(500, 6000)):
        key, prot, hd = handshake(r)
        wire, frames, close = gen_ok(r, r.randrange(0, 300), True)
        st = r.choice([1000, 1001, 4000]).to_bytes(2, "big")
        pre = ["rd %d" % r.choice([0, 0, 1, 5])] * r.randrange(0, 3)
        what = r.choice(["close", "close2", "ret", "nocb", "closewait"])
        rd = "rd %d" % r.choice([0, 1, 3])
        last = {"close": rd + "|close %s|ret -2" % st.hex(), "close2": rd + "|close %s|wn 10 3|close %s|ret -2" % (st.hex(), st.hex()),
                "ret": rd + "|wn 5 3|ret -2", "nocb": rd + "|nocb", "closewait": rd + "|close %s|wn 4 4" % st.hex()}[what]
        add("app", case_text(hs_bytes(hd), cut(r, wire), roomy(wire, pre + [last]), None, 0), (key, prot, frames, close, what, st, len(pre)))
    # hostile bytes
    for i in range(ctx.n(2500, 40000)):
        key, prot, hd = handshake(r)
        wire, frames, close = gen_ok(r, r.randrange(0, 130), True)
        wire = bytearray(wire[:3000])
        x = r.random()
        if x < 0.4:
            for _ in range(r.choice([1, 1, 2, 5])):
                if wire:
                    wire[r.randrange(min(len(wire), r.choice([4, 20, 3000])))] = r.choice([0, 1, 8, 9, 0x7e, 0x7f, 0x80, 0x88, 0x89, 0x8a, 0xfe, 0xff, r.randrange(256)])
        elif x < 0.7:
            op = r.choice([0, 3, 7, 8, 8, 9, 9, 10, 11, 15, 1, 2])
            n = r.choice([0, 1, 2, 124, 126, 127, 65535, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 62)])
            h = bytes([r.choice([0, 0x80, 0x80, 0xf0]) | op])
            form = r.choice([126, 127, 127]) if n > 125 or r.random() < 0.5 else n
            if form == 126:
                n &= 0xffff
            h += bytes([r.choice([0, 0x80]) | form])
            if form == 126:
                h += n.to_bytes(2, "big")
            elif form == 127:
                h += n.to_bytes(8, "big")
            wire = h + r.randbytes(r.choice([0, 1, 4, 5, 6, 200, 2000])) + bytes(wire)
        else:
            wire = r.randbytes(r.choice([1, 2, 3, 6, 10, 100, 1000]))
        mode, ops = gen_ops(r)
        if r.random() < 0.2:
            ops = ["skip|wn 3 3", "rd 1"]
        add("hostile", case_text(hs_bytes(hd), cut(r, bytes(wire)), ops, None, r.choice([0, 1])), None)
    # handshakes that are none
    for i in range(ctx.n(150, 1500)):
        key, prot, hd = handshake(r)
        drop = r.choice([b"upgrade", b"sec-websocket-key", b"sec-websocket-version", "ver", "up"])
        if drop == "ver":
            hd = [(k, r.choice([b"12", b"8", b"", b"x", b"0"]) if k.lower() == b"sec-websocket-version" else v) for k, v in hd]
        elif drop == "up":
            hd = [(k, r.choice([b"h2c", b"websockets", b"web"]) if k.lower() == b"upgrade" else v) for k, v in hd]
        else:
            hd = [(k, v) for k, v in hd if k.lower() != drop]
        add("nohs", case_text(hs_bytes(hd), [], ["rd 0"]), None)

    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=300), cases)
    for cid, ls in live.items():
        kind, m = meta[cid]
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        ctx.evals += 1
        ctx.count("cases_" + kind)
        o = Ob(ls)
        if not common(ctx, o, rep, kind):
            continue
        if kind == "nohs":
            if o.ws or not o.nows or b" 101 " in o.out[:20]:
                ctx.violation("nohandshake", "a request that is no websocket handshake was upgraded: %r" % o.out[:60], rep)
            continue
        head, body = split_hs(o.out)
        if not o.ws:
            ctx.violation("refused:" + kind, "a valid handshake was refused", rep)
            continue
        if o.neg != (0 if kind == "app" and m[4] == "nocb" else 1) and not (kind == "app" and m[4] == "nocb"):
            ctx.violation("endnotice:" + kind, "the callback was told %d times that the websocket ended" % o.neg, rep)
        for n, ok in o.big:
            ctx.count("large_messages")
            if not ok:
                ctx.violation("bigwrite", "a message of %d bytes was not sent as it should" % n, rep)
        if o.udbad or o.ret and o.ret["ud"] != o.ret["udsets"]:
            ctx.violation("userdata", "user data set %s times, released %s; right in callbacks: %s" % (o.ret["udsets"], o.ret["ud"], not o.udbad), rep)
        if any(x >= 0 for x in o.rneg):
            ctx.violation("readafterend", "a read after the end notice gave %r" % o.rneg, rep)
        fr = valid_out(ctx, o, rep, body, kind, kind == "wfail")
        if fr is None:
            continue
        if kind == "hostile":
            ctx.count("hostile_callbacks", len(o.cb))
            if fr or o.reads:
                ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
            continue
        key, prot, frames, close = m[0], m[1], m[2], m[3]
        if kind != "wfail" or b"\r\n\r\n" in o.out:
            check_hs(ctx, head, key, prot, rep)
        stream = b"".join(f[2] for f in frames if f[0] == "data")
        got = b"".join(x[2] for x in o.reads)
        if not stream.startswith(got):
            k = next((k for k in range(min(len(got), len(stream))) if got[k] != stream[k]), min(len(got), len(stream)))
            ctx.violation("content:" + kind, "byte %d of what was read differs from what the client sent (%d read, %d sent)" % (k, len(got), len(stream)), rep)
            continue
        # frames the callback was told about
        ends, pos = {0: set()}, 0
        cur = None
        for f in frames:
            if f[0] == "data":
                pos += len(f[2])
                ends.setdefault(pos, set()).add(f[1])
        bad = False
        for ready, before, op in o.cb:
            if before + ready not in ends:
                ctx.violation("ready:" + kind, "callback told %d bytes are ready at offset %d, no frame ends there" % (ready, before), rep)
                bad = True
                break
            if ends[before + ready] and op not in ends[before + ready] and kind in ("ok", "cut"):
                ctx.violation("opcode:" + kind, "the opcode at offset %d is %d, the client's message was %r" % (before, op, ends[before + ready]), rep)
                bad = True
                break
        if bad:
            continue
        pings = [f[1] for f in frames if f[0] == "ping"]
        pongs = [p for op, p in fr if op == 10]
        data = [(op, p) for op, p in fr if op in (1, 2)]
        wexp = [(op, d) for op, ret, d in o.writes if ret >= 0]
        for op, ret, d in o.writes:
            if ret >= 0 and ret != len(d):
                ctx.violation("wret:" + kind, "write of %d bytes reports %d" % (len(d), ret), rep)
        if kind != "wfail":
            if data != wexp:
                k = next((k for k in range(min(len(data), len(wexp))) if data[k] != wexp[k]), min(len(data), len(wexp)))
                ctx.violation("sent:" + kind, "message %d sent differs from what was written (%d sent, %d written): %s / %s" %
                              (k, len(data), len(wexp), [(a, len(b_)) for a, b_ in data[k:k + 1]], [(a, len(b_)) for a, b_ in wexp[k:k + 1]]), rep)
        elif data != wexp[:len(data)] or len(data) < len(wexp):
            ctx.violation("sent:" + kind, "messages reported as sent are not on the wire", rep)
        if pongs != pings[:len(pongs)]:
            ctx.violation("pong:" + kind, "pongs %r do not answer pings %r" % (pongs[:5], pings[:5]), rep)
        if kind == "ok":
            ctx.count("bytes_delivered", len(got))
            ctx.count("messages_sent", len(data))
            ctx.count("pongs", len(pongs))
            if any(ret < 0 for op, ret, d in o.writes) and not close and close is None:
                ctx.violation("wfailed", "a write failed although the connection takes them: %r" % [x[1] for x in o.writes if x[1] < 0], rep)
            if got != stream:
                ctx.violation("lost:ok", "%d of %d bytes reached the callback" % (len(got), len(stream)), rep)
                continue
            if len(pongs) != len(pings):
                ctx.violation("pong:ok", "%d pongs for %d pings" % (len(pongs), len(pings)), rep)
            cl = [p for op, p in fr if op == 8]
            if close is not None and cl != [close]:
                ctx.violation("close", "close %r answered with %r" % (close, cl), rep)
            if close is None and cl:
                ctx.violation("close", "close frame %r although nobody closed" % cl, rep)
            if m[4] in ("all",):
                empty = sum(1 for f in frames if f[0] == "data" and not f[2])
                told = sum(1 for x in o.cb if x[0] == 0)
                if empty != told:
                    ctx.violation("empty", "%d callbacks for %d empty messages" % (told, empty), rep)
            if got or pongs:
                ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
        elif kind == "cut":
            # everything of the frames that arrived whole was delivered
            need, np_ = arrived(m[5])
            if len(got) < need and m[4] != "beyond" and not any(x[1] < 0 for x in o.writes):
                ctx.violation("lost:cut", "%d bytes in whole frames arrived, %d reached the callback" % (need, len(got)), rep)
            if len(pongs) < np_:
                ctx.violation("pong:cut", "%d whole pings arrived, %d pongs" % (np_, len(pongs)), rep)
            if got:
                ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
        elif kind == "app":
            what, st, npre = m[4], m[5], m[6]
            cl = [p for op, p in fr if op == 8]
            ncb = len(o.cb)
            if what in ("close", "close2", "ret", "nocb"):
                if ncb > npre + 1:
                    ctx.violation("called", "the callback was called %d times after it ended the websocket (%s)" % (ncb - npre - 1, what), rep)
            if ncb > npre and what in ("close", "close2", "closewait") and cl != [st]:
                ctx.violation("appclose", "the application closed with %r, sent: %r" % (st, cl), rep)
            if ncb > npre:
                ctx.count("app_" + what)
                ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
    ctx.sample(texts["0"][:400])
    ctx.sample(texts["1300"][:400] if "1300" in texts else "")
    ctx.require(ctx.extra.get("bytes_delivered", 0) > 100000 and ctx.extra.get("pongs", 0) > 100 and ctx.extra.get("hostile_callbacks", 0) > 200,
                "too little was observed: %s" % ctx.extra)
    ctx.assumptions = ["one thread uses a websocket at a time", "message borders are not part of the API: the byte stream and the frame sizes are compared",
                       "reserved bits are not checked by the server and not used by the clients modelled as valid"]


def arrived(w):
    """(data bytes, pings) in whole frames of w"""
    i = n = p = 0
    while i + 2 <= len(w):
        l = w[i + 1] & 127
        op = w[i] & 15
        j = i + 2
        if l == 126:
            if j + 2 > len(w):
                break
            l = int.from_bytes(w[j:j + 2], "big")
            j += 2
        elif l == 127:
            if j + 8 > len(w):
                break
            l = int.from_bytes(w[j:j + 8], "big")
            j += 8
        j += 4 if w[i + 1] & 128 else 0
        if j + l > len(w):
            break
        if op == 9:
            p += 1
        elif op < 8:
            n += l
        i = j + l
    return n, p
