"""Helpers over the in-process server driver (harness/srv.c)."""
from . import build, core

WRAP = ["mkstemp", "write"]


def binary(flavor="asan"):
    return build.harness("srv", flavor, wrap=WRAP)


def rd(chunks):
    return "\n".join("RD " + c.hex() for c in chunks)


def case(chunks, script=("dump",), sets=(), tail="FREE", conn=True):
    lines = ["SET " + s for s in sets] + ["H " + s for s in script]
    if conn:
        lines.append("CONN")
    lines.append(rd(chunks))
    if tail:
        lines.append(tail)
    return "\n".join(lines)


def unhex(s):
    return None if s == "NULL" else bytes.fromhex(s)


class Obs:
    """What one connection was observed to do."""
    def __init__(self, lines):
        self.reqs = []       # list of dict
        self.out = []        # bytes per delivered segment
        self.st = []         # status per delivered segment
        self.res = {}
        self.misc = []
        self.freed = None
        cur = None
        for l in lines:
            f = l.split(" ")
            t = f[0]
            if t == "REQ":
                cur = {"h": [], "q": [], "p": [], "f": [], "c": [], "seg": len(self.st), "w": []}
                self.reqs.append(cur)
            elif t.startswith("d.") and cur is not None:
                k = t[2:]
                if k in ("h", "q", "p", "c"):
                    cur[k].append((unhex(f[1]), unhex(f[2])))
                elif k in ("f", "put"):
                    v = f[2]
                    v = v if v == "MISSING" else bytes.fromhex(v)
                    if k == "put":
                        cur["put"] = v
                    else:
                        cur["f"].append((unhex(f[1]), v))
                elif k in ("flags", "ka"):
                    cur[k] = int(f[1])
                elif k in ("noq", "nop", "putname"):
                    cur[k] = True
                else:
                    cur[k] = unhex(f[1] if len(f) > 1 else "")
            elif t == "OUT":
                self.out.append(unhex(f[1] if len(f) > 1 else ""))
            elif t == "ST":
                self.st.append(f[1])
            elif t == "FREED":
                self.freed = int(f[1])
            elif t == "RES":
                self.res = dict((a.split("=")[0], int(a.split("=")[1])) for a in f[1:])
            elif t in ("sget", "sid", "s", "cookie", "path", "w", "look", "date", "iso", "jsoncount", "LEAF", "REDIR"):
                if cur is not None:
                    cur.setdefault("ops", []).append((t, f[1:]))
                self.misc.append((t, f[1:]))

    def allout(self):
        return b"".join(self.out)


def die_report(ctx, results, cases, what="sanitizer"):
    """Reports dead cases; returns the live ones."""
    texts = dict(cases)
    live = {}
    for cid, r in results.items():
        if isinstance(r, core.Died):
            ctx.violation("%s:%s" % (what, r.key), "case %s\n%s" % (cid, core.san_excerpt(r.err)),
                          "CASE %s\n%s\nEND\n" % (cid, texts[cid]))
        else:
            live[cid] = r
    return live
