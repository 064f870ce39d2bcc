"""Helpers over the files driver (harness/files.c): cases, what was observed, and a model of the scratch tree."""
import os, urllib.parse
from . import build, core

WRAP = ("open open64 fopen opendir remove unlink rmdir rename mkdir chmod creat truncate link symlink mkstemp read write "
        "sendfile sendfile64").split()


def binary(flavor="asan"):
    return build.harness("files", flavor, wrap=WRAP)


def run(ctx, binary_, cases, **kw):
    os.chmod(ctx.scratch, 0o711)
    d = os.path.join(ctx.scratch, "fs")
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o755)
    return core.run_cases(ctx, binary_, cases, args=[d], **kw)


def h(b):
    return (b if isinstance(b, bytes) else b.encode()).hex()


def content(pat, n):
    return (pat * (n // len(pat) + 1))[:n]


class R:
    """One request as observed."""
    def __init__(self):
        self.st = None
        self.out = b""
        self.fs = []          # (op, path relative to the scratch)
        self.fsout = []       # (op, absolute path): out of the scratch
        self.tree = None
        self.mtimes = {}
        self.left = []
        self.info = {}


def observe(lines):
    """-> list of R (tree: the dump that follows the request), first tree, dict of the rest"""
    rs, first, misc = [], None, {"mime": [], "hnd": [], "res": {}}
    cur = R()
    tree = None
    mt = {}
    for l in lines:
        f = l.split(" ")
        t = f[0]
        if t == "FS":
            cur.fs.append((f[1], bytes.fromhex(f[2]) if len(f) > 2 else b""))
        elif t == "FSOUT":
            cur.fsout.append((f[1], bytes.fromhex(f[2])))
        elif t == "ST":
            cur.st = int(f[1])
            cur.info = dict((a.split("=")[0], int(a.split("=")[1])) for a in f[2:])
        elif t == "OUT":
            cur.out = bytes.fromhex(f[1]) if len(f) > 1 else b""
            rs.append(cur)
            cur = R()
        elif t == "T":
            if tree is None:
                tree = {}
            p = bytes.fromhex(f[2])
            if f[1] == "d":
                tree[p] = ("d", int(f[3], 8))
            elif f[1] == "l":
                tree[p] = ("l", bytes.fromhex(f[3]))
            else:
                tree[p] = ("f", int(f[3], 8), int(f[4]), None if f[5:] == ["unreadable"] else bytes.fromhex(f[5] if len(f) > 5 else ""))
        elif t == "TM":
            mt[bytes.fromhex(f[1])] = int(f[2])
        elif t == "TEND":
            if rs:
                rs[-1].tree = tree or {}
                rs[-1].mtimes = mt
            else:
                first = tree or {}
            tree = None
            mt = {}
        elif t == "TMPLEFT":
            (rs[-1] if rs else cur).left.append(bytes.fromhex(f[1]))
        elif t == "MIME":
            misc["mime"].append(bytes.fromhex(f[1]))
        elif t == "HND":
            misc["hnd"].append(int(f[1]))
        elif t == "RES":
            misc["res"] = dict((a.split("=")[0], int(a.split("=")[1])) for a in f[1:])
    if cur.fsout or cur.fs:
        rs.append(cur)
    return rs, first, misc


def resolve(tree, path, follow_last=True, depth=0):
    """Where a path relative to the scratch ends: (canonical path, node or None) or None when it cannot be walked.
    None as canonical path: out of the scratch."""
    if depth > 40:
        return None
    cur = []
    parts = [p for p in path.split(b"/")]
    trailing = path.endswith((b"/", b"/."))
    parts = [p for p in parts if p not in (b"", b".")]
    i = 0
    hops = 0
    while i < len(parts):
        p = parts[i]
        i += 1
        if p == b"..":
            if not cur:
                return (None, None)
            cur.pop()
            continue
        if len(p) > 255:
            return None
        q = b"/".join(cur + [p])
        n = tree.get(q)
        last = i == len(parts)
        if n is None:
            if last:
                return (q, None)
            return None
        if n[0] == "l" and (not last or follow_last or trailing):
            hops += 1
            if hops > 40:
                return None
            t = n[1]
            rest = parts[i:]
            if t.startswith(b"@"):
                cur = []
                t = t[1:]
            elif t.startswith(b"/"):
                return (None, None)
            parts = [x for x in t.split(b"/") if x not in (b"", b".")] + rest
            i = 0
            if not parts:
                break
            continue
        if n[0] != "d" and (not last or trailing):
            return None
        cur.append(p)
    q = b"/".join(cur)
    return (q, tree.get(q) if cur else ("d", 0o755))


def inside(path, root):
    return path is not None and (path == root or path.startswith(root + b"/") or root == b"")


def quote(r, path, style=None):
    """path as a request target: the same path, written in one of many ways"""
    style = style if style is not None else r.choice(["min", "min", "full", "mix"])
    out = b""
    for c in path:
        ch = bytes([c])
        safe = ch.isalnum() or ch in b"/-_.~"
        if c == 47:
            out += b"%2F" if style == "full" and r.random() < 0.5 else b"/"
        elif style == "min" and safe or style == "mix" and safe and r.random() < 0.6:
            out += ch
        else:
            out += (b"%%%02x" if r.random() < 0.5 else b"%%%02X") % c
    return out


def request(method, target, headers=(), body=b""):
    return (method + b" " + target + b" HTTP/1.1\r\nHost: a\r\n" + b"".join(k + b": " + v + b"\r\n" for k, v in headers) + b"\r\n" + body)
