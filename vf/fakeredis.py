"""The four redis commands the session backend uses, over a loopback socket, for the redis session backend."""
import socket, threading


class FakeRedis:
    def __init__(self, drop_after=None):
        self.h = {}
        self.cmds = 0
        self.bad = []
        self.lock = threading.Lock()
        self.drop_after = drop_after
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(256)
        self.port = self.s.getsockname()[1]
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        f = c.makefile("rb")
        n = 0
        try:
            while True:
                l = f.readline()
                if not l:
                    return
                if l[:1] != b"*":
                    self.bad.append(l)
                    return
                args = []
                for _ in range(int(l[1:])):
                    k = int(f.readline()[1:])
                    args.append(f.read(k))
                    f.read(2)
                n += 1
                if self.drop_after is not None and n > self.drop_after:
                    return
                with self.lock:
                    self.cmds += 1
                    r = self._cmd(args)
                c.sendall(r)
        except (OSError, ValueError):
            pass
        finally:
            f.close()
            c.close()

    def _cmd(self, a):
        op = a[0].upper()
        h = self.h.setdefault(a[1], {}) if len(a) > 1 else {}
        if op == b"HEXISTS":
            return b":%d\r\n" % (a[2] in h)
        if op == b"HGET":
            v = h.get(a[2])
            return b"$-1\r\n" if v is None else b"$%d\r\n%s\r\n" % (len(v), v)
        if op == b"HSET":
            new = a[2] not in h
            h[a[2]] = a[3]
            return b":%d\r\n" % new
        if op == b"HDEL":
            return b":%d\r\n" % sum(h.pop(k, None) is not None for k in a[2:])
        if op == b"DEL":
            return b":%d\r\n" % (self.h.pop(a[1], None) is not None)
        self.bad.append(op)
        return b"-ERR unknown command\r\n"

    def close(self):
        self.s.close()
