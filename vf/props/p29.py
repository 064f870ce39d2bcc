"""Serving over TLS delivers the same bytes as serving in clear; clients that do not complete a handshake disturb no one."""
import base64, os, random, select, signal, socket, ssl, struct, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from .. import core, build, httpgen, httpresp
from .p21 import frame, parse_frames

DEADLINE = 60            # a good client that waits longer than this is blocked
SIZES = [0, 1, 2, 100, 1023, 1024, 1459, 1460, 1499, 1500, 1501, 1502, 2999, 3000, 3001, 4096, 8191, 8192, 16383, 16384, 16385, 16386, 32768, 32769, 65536, 100000, 300000]


def binary(flavor):
    return build.harness("tls", flavor, wrap=["epoll_ctl", "epoll_wait", "accept4", "close", "gnutls_dh_params_init", "gnutls_dh_params_generate2", "gnutls_priority_init"])


class Failed(Exception):
    pass


class Server:
    def __init__(self, ctx, flavor, **kv):
        e = dict(os.environ)
        e.update(core.SAN_ENV)
        e["TSAN_OPTIONS"] += ":detect_deadlocks=0"
        self.kv = kv
        self.ctx = ctx
        self.flavor = flavor
        self.errf = open(os.path.join(ctx.scratch, "err-%d-%d" % (id(self), ctx.rng.randrange(1 << 30))), "w+b")
        self.cmd = [binary(flavor)] + ["%s=%s" % x for x in kv.items()]
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=e, start_new_session=True)
        self.dead = False
        l = self.line(60)
        if not l.startswith("READY"):
            raise core.HarnessError("tls server did not start: %r %s" % (l, self.err()[-600:]))
        self.addr = (l.split()[1], int(l.split()[2]))

    def name(self):
        return "tls-%s %s" % (self.flavor, " ".join(self.cmd[1:]))

    def err(self):
        self.errf.flush()
        return open(self.errf.name, errors="replace").read()

    def line(self, t):
        """a line of the server's output, or "" at its end or after t seconds"""
        end = time.time() + t
        b = b""
        while not b.endswith(b"\n"):
            if not select.select([self.p.stdout], [], [], max(0, end - time.time()))[0]:
                return ""
            c = os.read(self.p.stdout.fileno(), 1)
            if not c:
                return ""
            b += c
        return b.decode()

    def stat(self):
        try:
            self.p.stdin.write(b"stat\n")
            self.p.stdin.flush()
        except OSError:
            return None
        l = self.line(30).split()
        return [int(x) for x in l[1:]] if l[:1] == ["STAT"] else None

    def settle(self, fds, t=20):
        """waits until the server has at most fds descriptors open"""
        end = time.time() + t
        while True:
            s = self.stat()
            if s is None or s[2] <= fds or time.time() > end:
                return s
            time.sleep(0.02)

    def stop(self, t=30):
        """-> (allocs, bytes, fds) that are left, or None"""
        if self.dead:
            return None
        self.dead = True
        res = None
        try:
            self.p.stdin.write(b"stop\n")
            self.p.stdin.flush()
        except OSError:
            pass
        end = time.time() + t
        while time.time() < end:
            l = self.line(end - time.time())
            if l.startswith("END"):
                res = [int(x) for x in l.split()[1:]]
            if not l:
                break
        hung = False
        try:
            rc = self.p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(self.p.pid, signal.SIGKILL)
            rc = self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        e = self.err()
        self.errf.close()
        if "WARNING: ThreadSanitizer" in e:
            from ..netlib import tsan_key
            for part in e.split("==================")[1:]:
                if "WARNING: ThreadSanitizer" in part:
                    self.ctx.violation("tsan:" + tsan_key(part), "%s\n%s" % (core.san_excerpt(part, 45), self.name()), part)
        elif hung:
            self.ctx.violation("stop-hang", "the server did not stop in %d s: %s" % (t, self.name()), e[-2000:])
        elif rc != 0:
            self.ctx.violation("san:" + core.san_key(e), "rc=%s %s\n%s" % (rc, core.san_excerpt(e), self.name()), e[-8000:])
        return res

    def kill(self):
        if not self.dead:
            self.dead = True
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.errf.close()


def tcp(srv, t=DEADLINE):
    end = time.time() + t
    while True:
        s = socket.socket()
        s.settimeout(max(0.1, end - time.time()))
        try:
            s.connect(srv.addr)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            return s
        except OSError as e:
            s.close()
            if time.time() > end:
                raise Failed("no connection: %s" % e)
            time.sleep(0.01)


def sctx(cert, maxv=None):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    if cert:
        c.load_verify_locations(cert)
    if maxv:
        c.maximum_version = maxv
    return c


class Conn:
    """A client connection with control over records and segments."""

    def __init__(self, srv, sc, r=None, handshake=True, frag=None, t=DEADLINE):
        self.s = tcp(srv, t)
        self.end = time.time() + t
        self.tls = sc is not None
        self.clean = None
        self.frag = frag            # sizes of TCP segments, or None
        if self.tls:
            self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
            self.c = sc.wrap_bio(self.i, self.o, server_side=False)
            if handshake:
                while True:
                    try:
                        self.c.do_handshake()
                        self.push()
                        break
                    except ssl.SSLWantReadError:
                        self.push()
                        if not self.pull():
                            raise Failed("closed in the handshake")
                    except ssl.SSLError as e:
                        raise Failed("handshake: %s" % e)

    def raw(self, d):
        self.s.settimeout(max(0.1, self.end - time.time()))
        try:
            if self.frag:
                k = self.frag
                for a in range(0, len(d), k):
                    self.s.sendall(d[a:a + k])
            else:
                self.s.sendall(d)
        except socket.timeout:
            raise Failed("blocked writing")
        except OSError as e:
            raise Failed("writing: %s" % e)

    def push(self):
        d = self.o.read()
        if d:
            self.raw(d)

    def pull(self):
        self.s.settimeout(max(0.1, self.end - time.time()))
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            raise Failed("blocked reading")
        except OSError as e:
            return False
        if d:
            self.i.write(d)
        else:
            self.i.write_eof()
        return bool(d)

    def send(self, d):
        if not self.tls:
            return self.raw(d)
        for a in range(0, len(d), 16384):
            self.c.write(d[a:a + 16384])
        self.push()

    def recv(self):
        """b"" at the end"""
        if not self.tls:
            self.s.settimeout(max(0.1, self.end - time.time()))
            try:
                return self.s.recv(65536)
            except socket.timeout:
                raise Failed("blocked reading")
            except OSError:
                return b""
        while True:
            try:
                d = self.c.read(65536)
                if d == b"":
                    self.clean = True
                return d
            except ssl.SSLWantReadError:
                self.push()
                self.pull()
            except ssl.SSLZeroReturnError:
                self.clean = True
                return b""
            except ssl.SSLError as e:
                self.clean = False
                return b""

    def response(self, method):
        b = b""
        while True:
            try:
                o = httpresp.parse(b, method)
                if o.complete and o.framing != "close":
                    return b, False
            except httpresp.Bad:
                if b"\r\n\r\n" in b:
                    return b, False
            d = self.recv()
            if not d:
                return b, True
            b += d

    def close(self, linger0=False):
        try:
            if linger0:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.s.close()
        except OSError:
            pass


def pattern(n):
    return bytes(((i * 131 + (i >> 8) * 7) & 255) for i in range(n))


def undate(b):
    import re
    m = b.find(b"\r\n\r\n")
    return re.sub(rb"\r\nDate: [^\r]*", b"\r\nDate: -", b[:m]) + b[m:]


def gen(r, files):
    """-> (request bytes, method, expected body or None)"""
    k = r.random()
    if k < 0.25:
        n = r.choice(SIZES) if r.random() < 0.7 else r.randrange(0, 40000)
        piece = r.choice([1000, 1024, 1500, 4096, 16384, 16385, 40000, 400000])
        ln = r.randrange(2)
        return (b"GET /big?n=%d&piece=%d&len=%d HTTP/1.%d\r\nHost: x\r\n\r\n" % (n, piece, ln, r.random() < 0.85), "GET", pattern(n))
    if k < 0.35:
        f, d = r.choice(files)
        return (b"GET /file?f=%s HTTP/1.1\r\nHost: x\r\n\r\n" % f.encode(), "GET", d)
    if k < 0.65:                # sizes around the buffers of the reader, in one record or more
        n = r.choice(SIZES) if r.random() < 0.7 else r.randrange(0, 40000)
        d = r.randbytes(n)
        h = b"POST /raw HTTP/1.1\r\nHost: x\r\nContent-Type: application/octet-stream\r\nContent-Length: %d\r\n" % n
        if r.random() < 0.5:
            pad = r.choice(SIZES[:12])
            h += b"X-Pad: " + b"p" * min(pad, 4000) + b"\r\n"
        return h + b"\r\n" + d, "POST", None if n > 65536 * 3 else (b"data %d\n" % n + d if n else None)
    q = httpgen.gen_request(r, huge=r.choice([0, 0, 5000]))
    return q.raw() if callable(getattr(q, "raw", None)) else q.wire(), q.method, None


def converse(srv, sc, reqs, style, rseed, one):
    """-> [(raw response, closed, clean)]"""
    r = random.Random(rseed)
    c = None
    out = []
    todo = list(reqs)
    fresh = True
    retried = 0
    while todo:
        raw, method, _ = todo[0]
        if c is None:
            fresh = True
            c = Conn(srv, sc, frag=r.choice([None, None, None, 1, 7, 100, 1447]) if len(raw) < 5000 else r.choice([None, None, 1447, 9000]))
        try:
            for piece in httpgen.split(r, raw, style if len(raw) < 4000 or style not in ("bytes", "delim") else "few"):
                c.send(piece)
        except Failed:
            pass                # the server may refuse a request before reading it all
        b, closed = c.response(method)
        if not b and not fresh:     # closed after the previous answer, as a client may find out only now
            c.close()
            c = None
            retried += 1
            continue
        fresh = False
        todo.pop(0)
        if not closed and (one or b"onnection: close" in b[:b.find(b"\r\n\r\n")]):
            while True:
                d = c.recv()
                if not d:
                    break
                b += d
            closed = True
        out.append((b, (closed, retried), c.clean))
        if closed:
            c.close()
            c = None
    if c:
        c.close()
    return out


def check_conv(ctx, srv, name, reqs, clear, tls):
    for i, ((raw, method, want), a, b) in enumerate(zip(reqs, clear, tls)):
        ctx.evals += 1
        rep = "%s\nrequest %d of %d: %r\nin clear: %r\nover TLS: %r" % (srv.name(), i, len(reqs), raw[:1500], a[0][:1500], b[0][:1500])
        if undate(a[0]) != undate(b[0]):
            j = next((j for j in range(min(len(a[0]), len(b[0]))) if a[0][j] != b[0][j]), min(len(a[0]), len(b[0])))
            ctx.violation("differ:%s" % name, "response over TLS (%d bytes) is not the one in clear (%d bytes), first difference at %d\n%s" % (len(b[0]), len(a[0]), j, rep), rep)
            return
        if a[1] != b[1]:
            ctx.violation("closing:%s" % name, "(closed, times closed between requests) is %s over TLS and %s in clear\n%s" % (b[1], a[1], rep), rep)
            return
        if want is not None:
            try:
                o = httpresp.parse(b[0], method, closed=b[1][0])
            except httpresp.Bad as e:
                ctx.violation("badresp:%s" % name, "%s\n%s" % (e, rep), rep)
                return
            body = o.body
            ok = body.endswith(want) if raw.startswith(b"POST") else body == want
            if not ok:
                ctx.violation("body:%s" % name, "the body has not the bytes sent\n" + rep, rep)
                return
            if o.framing == "close" and b[2] is not True:
                ctx.violation("noclose:%s" % name, "the end of a body that ends with the connection was not notified over TLS\n" + rep, rep)
                return
            ctx.count("bodies_checked")
        ctx.distinct.add((len(raw), len(b[0])))


def hello(sc):
    i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
    c = sc.wrap_bio(i, o, server_side=False)
    try:
        c.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return o.read()


HOSTILE = ["idle", "plain", "garbage", "halfhello", "hellocut", "hellorst", "untrusted", "rstafter", "closeafter", "halfrecord", "badrecord", "zero", "plaintail", "halfreq"]
STALL = {"halfhello", "halfrecord", "idle", "halfreq", "hello"}


def hostile(srv, sc, kind, r):
    """one client that misbehaves; returns (socket to be kept open or None, bytes the server answered)"""
    got = b""

    def drain(s, t):
        nonlocal got
        s.settimeout(t)
        try:
            while True:
                d = s.recv(4096)
                if not d:
                    break
                got += d
        except OSError:
            pass
    if kind in ("idle", "plain", "garbage", "halfhello", "hellocut", "hellorst", "zero", "hello"):
        s = tcp(srv)
        h = hello(sc)
        try:
            if kind == "plain":
                s.sendall(b"GET /big?n=5000 HTTP/1.1\r\nHost: x\r\n\r\n")
                drain(s, 5)
            elif kind == "garbage":
                s.sendall(r.randbytes(r.choice([1, 5, 6, 100, 5000])))
                s.shutdown(socket.SHUT_WR)
                drain(s, 5)
            elif kind == "halfhello":
                s.sendall(h[:r.randrange(1, len(h))])
            elif kind == "hello":
                s.sendall(h)
            elif kind == "hellocut":
                s.sendall(h[:r.randrange(1, len(h))])
                s.shutdown(socket.SHUT_WR)
                drain(s, 5)
            elif kind == "hellorst":
                s.sendall(h[:r.randrange(1, len(h) + 1)])
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif kind == "zero":
                s.shutdown(socket.SHUT_WR)
                drain(s, 5)
        except OSError:
            pass
        if kind in STALL:
            return s, got
        s.close()
        return None, got
    if kind == "untrusted":
        c = None
        try:
            c = Conn(srv, sctx(None))
            raise Failed("accepted")
        except Failed as e:
            if str(e) == "accepted":
                raise core.HarnessError("the client accepted an unknown certificate")
        return None, got
    c = Conn(srv, sc)
    if kind == "rstafter":
        c.close(True)
        return None, got
    if kind == "closeafter":
        c.close()
        return None, got
    c.c.write(b"GET /big?n=3000 HTTP/1.1\r\nHost: x\r\n\r\n" if kind != "halfreq" else b"GET /big?n=3000 HT")
    d = bytearray(c.o.read())
    if kind == "badrecord":
        d[r.randrange(5, len(d))] ^= 1 << r.randrange(8)
        c.raw(bytes(d))
        c.end = time.time() + 5
        try:
            b = c.recv()
            got = b
        except Failed:
            pass
        c.close()
        return None, got
    if kind == "plaintail":     # from TLS to clear in the same connection
        c.raw(b"GET /big?n=3000 HTTP/1.1\r\nHost: x\r\n\r\n")
        drain(c.s, 5)
        c.close()
        return None, got
    if kind == "halfreq":
        c.raw(bytes(d))
        return c.s, got
    c.raw(bytes(d[:r.randrange(1, len(d))]))
    return c.s, got


def good(srv, sc, r, files, t=DEADLINE):
    """a well behaved client; raises Failed"""
    n = r.choice([10, 5000, 20000])
    c = Conn(srv, sc, t=t)
    d = r.randbytes(n)
    c.send(b"POST /raw HTTP/1.1\r\nHost: x\r\nContent-Type: application/octet-stream\r\nConnection: close\r\nContent-Length: %d\r\n\r\n" % n + d)
    b, closed = c.response("POST")
    c.close()
    if not b.endswith(b"data %d\n" % n + d + b"\r\n0\r\n\r\n") and not b.endswith(b"data %d\n" % n + d):
        raise Failed("wrong answer %r" % b[:200])


def answered(srv, sc, r):
    c = Conn(srv, sc, t=40)
    n = r.choice([10, 5000])
    c.send(b"GET /big?n=%d&len=1 HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n" % n)
    b, closed = c.response("GET")
    if not b.endswith(b"\r\n\r\n" + pattern(n)):
        raise Failed("wrong answer %r" % b[:200])
    return c.s


def secure(ctx, srv, sc, want):
    c = Conn(srv, sc)
    c.send(b"GET /secure HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
    b, closed = c.response("GET")
    c.close()
    ctx.evals += 1
    if b"secure=%d;" % want not in b:
        ctx.violation("secure", "the handler was told the wrong thing about the connection being secure (it is: %d): %r\n%s" % (want, b, srv.name()), "")


def slow_readers(ctx, srv, sc, r, n):
    """clients that read slowly a response bigger than any buffer"""
    def one(sd):
        q = random.Random(sd)
        size = q.choice([6000000, 9000000])
        toend = q.random() < 0.5        # the body ends with the connection
        c = Conn(srv, sc, t=200)
        c.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536)
        c.send(b"GET /big?n=%d&piece=%d&len=%d HTTP/1.%d\r\nHost: x\r\nConnection: close\r\n\r\n" % (size, q.choice([1500, 16384, 200000]), not toend, not toend))
        time.sleep(0.3)         # the server fills the buffers, and waits
        b = []
        k = 0
        while True:
            d = c.recv()
            if not d:
                break
            b.append(d)
            k += 1
            if k % 20 == 0:
                time.sleep(0.005)
        c.close()
        b = b"".join(b)
        i = b.find(b"\r\n\r\n")
        return size, b[i + 4:], c.clean
    with ThreadPoolExecutor(3) as ex:
        try:
            for size, b, clean in ex.map(one, [r.randrange(1 << 60) for _ in range(n)]):
                ctx.evals += 1
                ctx.count("slow_readers")
                if len(b) != size or b != big(size):
                    ctx.violation("slow", "a client that read slowly a body of %d bytes over TLS got %d bytes%s\n%s" % (size, len(b), "" if len(b) != size else ", other ones", srv.name()), "")
                elif clean is not True:
                    ctx.violation("slow-end", "a client that read slowly was not told of the end of the connection\n%s" % srv.name(), "")
        except Failed as e:
            ctx.violation("slow", "a client that read slowly was not served: %s\n%s" % (e, srv.name()), "")


BIG = {}


def big(n):
    if n not in BIG:
        BIG[n] = (pattern(65536) * (n // 65536 + 1))[:n]      # it repeats
    return BIG[n]


def wsconn(srv, sc):
    c = Conn(srv, sc)
    c.send(b"GET /ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: %s\r\n\r\n" % base64.b64encode(b"0123456789abcdef"))
    b = b""
    while b"\r\n\r\n" not in b:
        d = c.recv()
        if not d:
            raise Failed("closed before the websocket answer: %r" % b)
        b += d
    if b" 101 " not in b[:20]:
        raise Failed("no websocket: %r" % b[:100])
    return c, b[b.index(b"\r\n\r\n") + 4:]


def websockets(ctx, srv, sc, r, n):
    for k in range(n):
        c, rest = wsconn(srv, sc)
        for rnd in range(r.randrange(1, 4)):
            msgs = [r.randbytes(r.choice([1, 2, 100, 125, 126, 1000, 3000, 3001, 9000, 16384, 30000])) for _ in range(r.choice([1, 2, 3, 8]))]
            wire = b"".join(frame(r, 2, m) for m in msgs)
            style = r.choice(["one", "two", "few", "fixed"]) if len(wire) < 5000 else r.choice(["one", "two", "few"])
            for p in httpgen.split(r, wire, style):
                c.send(p)
            want = b"".join(msgs)
            buf = rest
            have = b""
            while len(have) < len(want):
                fr, rest, e = parse_frames(buf)
                if e:
                    ctx.violation("ws-frame", "%s %s" % (e, srv.name()), repr(buf[:500]))
                    return
                buf = rest
                have += b"".join(x for o, x in fr if o in (1, 2))
                if len(have) >= len(want):
                    break
                try:
                    d = c.recv()
                except Failed as e:
                    d = b""
                if not d:
                    ctx.violation("ws-lost", "a websocket over TLS gave back %d of %d bytes sent in %d messages (%s): %s" % (len(have), len(want), len(msgs), style, srv.name()), repr([len(m) for m in msgs]))
                    return
                buf += d
            if have != want:
                ctx.violation("ws-data", "a websocket over TLS gave back other bytes: %s" % srv.name(), repr([len(m) for m in msgs]))
                return
            ctx.evals += 1
            ctx.count("websocket_rounds")
            ctx.distinct.add(("ws", tuple(len(m) for m in msgs), style))
        c.send(frame(r, 8, b"\x03\xe8"))
        c.close()


def run(ctx):
    d = ctx.scratch
    cert, key = d + "/cert.pem", d + "/key.pem"
    rc, o, e = core.run_tool(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", key, "-out", cert, "-days", "30", "-subj", "/CN=localhost"], 60)
    if rc != 0:
        raise core.HarnessError("openssl: " + e[-300:])
    sc = sctx(cert)
    sc12 = sctx(cert, ssl.TLSVersion.TLSv1_2)
    files = []
    for n in [0, 1, 5000, 16384, 70000]:
        data = random.Random(n).randbytes(n)
        open(d + "/f%d.bin" % n, "wb").write(data)
        files.append(("f%d.bin" % n, data))
    common = dict(cert=cert, key=key, dir=d)
    rng = ctx.rng
    servers = []

    def start(flavor, **kv):
        s = Server(ctx, flavor, **dict(common, **kv))
        servers.append(s)
        return s
    try:
        body(ctx, rng, start, sc, sc12, files)
    finally:
        for s in servers:
            s.kill()


def differential(ctx, rng, start, sc, sc12, files, mode, flavor, n, conc, **kv):
    clear = start("asan", tls=0, mode=mode)
    tls = start(flavor, tls=1, mode=mode, **kv)
    one = mode == "one"
    seqs = []
    for i in range(n):
        r = random.Random(rng.randrange(1 << 60))
        reqs = [gen(r, files) for _ in range(1 if one else r.choice([1, 1, 2, 3, 5]))]
        if flavor == "tsan" and i < 8:      # first uses at the same time
            reqs[0] = (b"GET /file?f=%s HTTP/1.1\r\nHost: x\r\n\r\n" % files[i % len(files)][0].encode(), "GET", files[i % len(files)][1])
        seqs.append((reqs, r.choice(["one", "one", "two", "few", "fixed", "crlf", "bytes"]), r.randrange(1 << 60), r.choice([sc, sc, sc12])))

    def job(q):
        reqs, style, sd, c = q
        try:
            a = converse(clear, None, reqs, style, sd, one)
        except Failed as e:
            return q, None, str(e)
        try:
            return q, a, converse(tls, c, reqs, style, sd, one)
        except Failed as e:
            return q, a, str(e)
    with ThreadPoolExecutor(conc) as ex:
        for q, a, b in ex.map(job, seqs):
            if a is None:
                raise core.HarnessError("clear server: " + b)
            if isinstance(b, str):
                ctx.violation("lost:" + mode, "a client over TLS did not get its answer: %s\n%s\n%s" % (b, tls.name(), repr([x[0][:300] for x in q[0]])), "\n".join(repr(x[0]) for x in q[0]))
                break
            check_conv(ctx, tls, mode, q[0], a, b)
            ctx.count("tls_conversations")
    if not ctx.violations:
        if not one:
            websockets(ctx, tls, sc, random.Random(rng.randrange(1 << 60)), 3 if ctx.quick else 40)
        secure(ctx, clear, None, 0)
        secure(ctx, tls, sc, 1)
        if kv.get("signal"):
            slow_readers(ctx, tls, sc, random.Random(rng.randrange(1 << 60)), ctx.n(6, 60))
    return clear, tls


def finish(ctx, s, name, open_ok=False):
    left = s.stop()
    if left and s.flavor == "asan":
        ctx.count("server_ends")
        if left[2] > 0:
            ctx.violation("fds:" + name, "%d descriptors are open after the server was freed: %s" % (left[2], s.name()), "")
    return left


def body(ctx, rng, start, sc, sc12, files):
    ctx.rule = "a conversation over TLS, a websocket exchange, or a misbehaving client next to good ones"
    # 1: the same conversations over TLS and in clear
    for mode, flavor, kv in [("poll", "asan", {}), ("threads", "asan", dict(threads=8, promote=1)), ("one", "asan", {}), ("threads", "asan", dict(threads=4, signal=1500)), ("threads", "tsan", dict(threads=6))]:
        n = ctx.n(60, 1500) if flavor == "asan" else ctx.n(25, 400)
        a, b = differential(ctx, rng, start, sc, sc12, files, mode, flavor, n, 1 if mode == "one" else 8, **kv)
        finish(ctx, a, "clear")
        finish(ctx, b, mode)
        if ctx.violations:
            return
    # 2: clients that say nothing for long do not block the others
    for mode, kv in [("poll", {}), ("threads", dict(threads=4))]:
        s = start("asan", tls=1, mode=mode, timeout=300000, **kv)
        r = random.Random(rng.randrange(1 << 60))
        keep = []
        for i in range(12):
            k = r.choice(["idle", "idle", "halfreq", "answered"])
            if k == "answered":     # got its answer, which said close, and stays there
                try:
                    keep.append(answered(s, r.choice([sc, sc12]), r))
                except Failed as e:
                    ctx.violation("blocked-idle:" + mode, "with %d clients that are connected and silent, a good client is not served in 40 s: %s\n%s" % (len(keep), e, s.name()), "")
                    return
            else:
                keep.append(hostile(s, sc, k, r)[0])
            ctx.count("idle_clients")
        t0 = time.time()
        try:
            for i in range(4):
                good(s, r.choice([sc, sc12]), r, files, t=40)
                ctx.count("good_clients")
        except Failed as e:
            ctx.violation("blocked-idle:" + mode, "with %d clients that are connected and silent, a good client is not served in 40 s: %s\n%s" % (len(keep), e, s.name()), "")
        ctx.evals += len(keep)
        for k in keep:
            if k:
                k.close()
        if ctx.violations:
            return
        finish(ctx, s, mode)
    # 3: misbehaving clients, next to good ones, and nothing is left of them
    for mode, kv in [("poll", {}), ("threads", dict(threads=4)), ("one", {})]:
        tmo = 400
        s = start("asan", tls=1, mode=mode, timeout=tmo, **kv)
        r = random.Random(rng.randrange(1 << 60))
        base = None
        rounds = ctx.n(5, 40)
        log = []
        for rnd in range(rounds + 1):
            kinds = list(HOSTILE) + (["hello"] if mode != "one" else [])
            if mode == "one":
                kinds = [k for k in kinds if k not in ("halfreq",)]
            r.shuffle(kinds)
            st0 = s.settle(base[2] if base else 1000)
            req0 = st0[3] if st0 else 0
            errs = []

            def goods(seed, n):
                q = random.Random(seed)
                for _ in range(n):
                    try:
                        good(s, q.choice([sc, sc12]), q, files)
                        ctx.count("good_clients")
                    except Failed as e:
                        errs.append(str(e))
                        return
            th = threading.Thread(target=goods, args=(r.randrange(1 << 60), 6))
            th.start()
            for k in kinds:
                try:
                    keep, got = hostile(s, r.choice([sc, sc12]), k, r)
                except Failed as e:
                    errs.append("%s: %s" % (k, e))
                    break
                ctx.evals += 1
                ctx.count("misbehaving_clients")
                ctx.distinct.add((mode, k, len(got)))
                if pattern(5000)[1000:1100] in got or b"HTTP/1." in got or b"<h1>" in got:
                    ctx.violation("content:%s" % k, "a client without TLS got an answer in clear: %r\n%s" % (got[:200], s.name()), repr(got))
                if k in ("plain", "plaintail", "badrecord") and got and got[:1] not in (b"\x15", b"\x16", b"\x17", b"\x14"):
                    ctx.violation("content:%s" % k, "a client without TLS got an answer that is not TLS: %r\n%s" % (got[:200], s.name()), repr(got))
                if keep:
                    log.append(keep)
                    if r.random() < 0.3:
                        time.sleep(0.05)
                    if r.random() < 0.7:
                        log.pop().close()
            th.join()
            if errs:
                ctx.violation("blocked:" + mode, "next to misbehaving clients, a good client was not served: %s\n%s" % (errs[0], s.name()), "")
                break
            # the silent clients are closed by the timeout of the server, and nothing of them is left
            if base is None:
                time.sleep(3 * tmo / 1000.)
                for k in log:
                    k.close()
                log = []
                time.sleep(0.3)
                base = s.stat()
                base_fd = base
                continue
            st = s.settle(base[2])
            if st is None:
                break
            if st[2] > base[2]:
                ctx.violation("fd-left:" + mode, "%d more descriptors than before, 20 s after the clients of a server with a timeout of %d ms: %s" % (st[2] - base[2], tmo, s.name()), "")
                break
            for k in log:
                k.close()
            log = []
            ctx.count("rounds")
        if base and not ctx.violations:
            st = s.settle(base[2])
            for _ in range(60):
                if st and st[0] - base[0] >= rounds:
                    time.sleep(0.1)
                    st = s.stat()
            if st:
                if st and st[0] - base[0] >= rounds:
                    ctx.violation("leak:" + mode, "%d blocks (%d bytes) more than before %d rounds of clients, all of them closed: %s" % (st[0] - base[0], st[1] - base[1], rounds, s.name()), "")
            ctx.extra["heap_growth_" + mode] = (st[0] - base[0]) if st else None
        if ctx.violations:
            return
        finish(ctx, s, mode)
    rc, o, e = core.run_tool([binary("asan"), "failinit=1", "cert=" + ctx.scratch + "/cert.pem", "key=" + ctx.scratch + "/key.pem"], 120)
    o = o.decode()
    if rc != 0:
        ctx.violation("failinit:" + core.san_key(e), "TLS that can not be initialized: rc=%s %s" % (rc, core.san_excerpt(e)), o + e[-6000:])
        return
    for l in o.splitlines():
        w = l.split()
        if w[0] == "FAILINIT":
            ctx.evals += 1
            ctx.count("failed_initializations")
            if int(w[3]) >= 0:
                ctx.violation("failinit-silent", "TLS could not be initialized and nobody said so: %s" % l, o)
        elif w[0] == "OKINIT":
            ctx.evals += 1
            if int(w[3]) < 0:
                ctx.violation("init", "TLS could not be initialized: %s" % l, o)
        elif w[0] == "END" and int(w[1]) >= 4:
            ctx.violation("failinit-leak", "%s blocks are left of initializations of TLS, failed or not" % w[1], o)
    ctx.require(ctx.extra.get("failed_initializations", 0) == 54, "failed initializations")
    # 4: stop with connections in all states
    for mode, kv in [("poll", {}), ("threads", dict(threads=4))]:
        for rnd in range(ctx.n(2, 20)):
            s = start("asan", tls=1, mode=mode, timeout=2000, **kv)
            r = random.Random(rng.randrange(1 << 60))
            keep = []
            try:
                good(s, sc, r, files)
                for i in range(r.randrange(1, 6)):
                    keep.append(hostile(s, sc, r.choice(["idle", "halfhello", "halfrecord", "halfreq"]), r)[0])
            except Failed as e:
                ctx.violation("blocked:" + mode, "%s\n%s" % (e, s.name()), "")
            ctx.evals += 1
            finish(ctx, s, "stop")
            for k in keep:
                if k:
                    k.close()
            if ctx.violations:
                return
    ctx.require(ctx.extra.get("tls_conversations", 0) >= ctx.n(100, 1000), "TLS conversations")
    ctx.require(ctx.extra.get("misbehaving_clients", 0) >= 50, "misbehaving clients")
    ctx.require(ctx.extra.get("good_clients", 0) >= 30, "good clients")
    ctx.require(ctx.extra.get("websocket_rounds", 0) >= 5, "websockets")
