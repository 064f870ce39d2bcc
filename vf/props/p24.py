"""WebDAV changes exactly what was asked, and nothing outside its directory."""
import urllib.parse
from email.utils import formatdate
import xml.etree.ElementTree as ET
from .. import core, fileslib, httpresp, srvlib
from ..fileslib import h, request, quote, resolve, inside
from .p23 import Gen, name as hname

SHARE = b"share"

MIX = ("webdav",)      # kinds of handlers also run concurrently (harness/mix.h)


def nm(r):
    if r.random() < 0.75:
        return r.choice([b"a", b"b", b"c", b"d1", b"d2", b"f.txt", b"new", b"x y"])
    n = hname(r).replace(b"+", b"_")
    return n


def mk(r):
    g = Gen(r)
    g.mkdir(SHARE)
    g.file(SHARE + b"/keep.txt")
    for sib in (b"share2", b"share-private", b"shar", b"SHARE", b"sharE"):
        g.mkdir(sib)
        g.file(sib + b"/secret.txt", True)
    g.mkdir(b"outside/sub")
    g.file(b"outside/secret.txt", True)
    g.file(b"secret.txt", True)
    dirs = [SHARE]
    for _ in range(r.randrange(1, 4)):
        d = r.choice(dirs) + b"/" + nm(r)
        if d in g.tree or len(d) > 800:
            continue
        g.mkdir(d)
        dirs.append(d)
    for _ in range(r.randrange(1, 5)):
        f = r.choice(dirs) + b"/" + nm(r)
        if f not in g.tree:
            g.file(f)
            if r.random() < 0.5:          # other modes and times
                x = g.lines.pop().split(" ")
                mode = r.choice([0o644, 0o600, 0o755, 0o711, 0o645, 0o4755, 0o2750, 0o1644, 0o6711, 0o7777])
                x[2], x[3] = "%o" % mode, "%d" % r.choice([1, 86399, 951782400, 1000000000, 1234567890, 1709164800, 2147483647, 2147483648, 4102444800])
                g.lines.append(" ".join(x))
                g.tree[f] = ("f", mode) + g.tree[f][2:]
            elif r.random() < 0.04:       # huge
                x = g.lines.pop().split(" ")
                n = r.choice([1 << 31, (1 << 32) + 5, (1 << 31) - 1, 5000000000])
                g.lines.append("FILE %s 644 0 %d" % (x[1], n))
                g.tree[f] = ("f", 0o644, n, b"\0" * 65536)
                g.huge = True
    for _ in range(r.randrange(0, 3)):
        d = r.choice(dirs)
        p = d + b"/" + r.choice([b"l1", b"l2", b"lo"])
        if p in g.tree:
            continue
        up = b"../" * (d.count(b"/") + 1)
        g.link(p, r.choice([b"@/secret.txt", b"@/outside", up + b"outside/secret.txt", up + b"outside", b"@/share2", b"@/SHARE", b"@/sharE/secret.txt", b"@/outside/new", b"@/nowhere/x", b"keep.txt", b".", b"..", b"@/" + r.choice(dirs), b"@/share/keep.txt",
                            b"@/share/gone", b"@/share2/secret.txt"]))
    return g


def rpath(r, tree):
    """a path in the share (decoded), wherever it goes"""
    x = r.random()
    ins = [p[6:] for p in tree if p.startswith(SHARE + b"/")]
    dirs = [p[6:] for p, n in tree.items() if n[0] == "d" and p.startswith(SHARE + b"/")] + [b""]
    if x < 0.45 and ins:
        p = r.choice(ins)
        if p == b"keep.txt" and r.random() < 0.7:
            p = nm(r)
        return p + (b"/" if r.random() < 0.1 else b"")
    d = r.choice(dirs)
    if x < 0.8:
        return (d + b"/" if d else b"") + nm(r) + (b"/" if r.random() < 0.05 else b"")
    links = [p[6:] for p, n in tree.items() if n[0] == "l"]
    if x < 0.9 and links:
        return r.choice(links) + r.choice([b"", b"/", b"/secret.txt", b"/new", b"/sub", b"/sub/x", b"/.."])
    return r.choice([b"", b"/", b".", b"..", b"../", b"../secret.txt", b"../share2/new", b"../share2/secret.txt", b"../outside/new", b"a/../../secret.txt", b"nonexistent/../x", b"./new", b"//new", b"a//b", b"..//secret.txt",
                     d + b"/..", d + b"/../new", d + b"/.", d + b"/./new", b"nonexistent/deep/x", b"../share", b"../share/new", b"../shar", b"a" * 300, b"b" * 600, (b"c" * 100 + b"/") * 6 + b"x", b"./" * 2040 + b"new",
                     b"./" * 2047 + b"x", b"./" * 300 + b"new", b"...", b"..a"])


def xml_propfind(r):
    x = r.random()
    props = ["resourcetype", "getcontentlength", "getlastmodified", "creationdate", "getetag", "getcontenttype", "displayname", "executable", "unknownprop", "quota"]
    if x < 0.15:
        return None
    if x < 0.5:
        return '<?xml version="1.0"?><D:propfind xmlns:D="DAV:"><D:allprop/></D:propfind>'
    if x < 0.85:
        return ('<?xml version="1.0" encoding="utf-8"?>\n<D:propfind xmlns:D="DAV:">\n <D:prop>' + "\n".join("<D:%s/>" % p for p in ["resourcetype", "getcontentlength"] + r.sample(props, r.randrange(0, 6))) + "</D:prop></D:propfind>")
    return r.choice(["", "x", "<", "<a/>", "<propfind/>", '<D:propfind xmlns:D="DAV:"/>', '<D:propfind xmlns:D="DAV:"><![CDATA[x]]><D:prop><![CDATA[y]]><!-- c --><?pi x?><D:getetag/></D:prop></D:propfind>',
                     '<!DOCTYPE a [<!ENTITY x SYSTEM "file:///etc/passwd">]><a>&x;</a>', '<!DOCTYPE a [<!ENTITY x "y">]><D:propfind xmlns:D="DAV:">&x;<D:prop>&x;</D:prop></D:propfind>', "<a><b></a>", "\0\1\2", "<a" * 500,
                     '<D:propfind xmlns:D="DAV:"><D:prop>' + "<D:p%d/>" * 3 % (1, 2, 3) + "<D:" + "z" * 600 + "/></D:prop></D:propfind>"])


def xml_proppatch(r, v):
    x = r.random()
    if x < 0.8:
        return '<?xml version="1.0"?><D:propertyupdate xmlns:D="DAV:" xmlns:a="http://apache.org/dav/props/"><D:set><D:prop><a:executable>%s</a:executable></D:prop></D:set></D:propertyupdate>' % v, True
    return r.choice(["", "x", "<a/>", '<D:propertyupdate xmlns:D="DAV:"/>', '<D:propertyupdate xmlns:D="DAV:"><D:set><D:prop><executable/></D:prop></D:set></D:propertyupdate>',
                     '<D:propertyupdate xmlns:D="DAV:"><D:set><D:prop><other>T</other></D:prop></D:set></D:propertyupdate>', '<D:propertyupdate xmlns:D="DAV:"><![CDATA[z]]><D:set><![CDATA[z]]><D:prop><![CDATA[z]]></D:prop></D:set></D:propertyupdate>',
                     '<D:propertyupdate xmlns:D="DAV:"><D:remove><D:prop><executable>T</executable></D:prop></D:remove></D:propertyupdate>', '<executable>T</executable>', '<D:propertyupdate xmlns:D="DAV:"><D:set><D:prop><executable><b/></executable></D:prop></D:set></D:propertyupdate>',
                     '<D:propertyupdate xmlns:D="DAV:"><D:set><D:prop><executable><b>T</b></executable></D:prop></D:set></D:propertyupdate>', '<D:propertyupdate xmlns:D="DAV:"><D:set/><D:set><D:prop/></D:set></D:propertyupdate>']), False


def one_step(r, tree, mount):
    """-> (request bytes, description dict)"""
    m = r.choices([b"PUT", b"DELETE", b"MKCOL", b"MOVE", b"PROPFIND", b"PROPPATCH", b"GET", b"HEAD", b"OPTIONS"], [18, 14, 10, 26, 13, 6, 12, 4, 1])[0]
    p = rpath(r, tree)
    pre = {"-": b"/", "^wd/": b"/wd/", "^wd": b"/wd/"}[mount]
    t = pre + quote(r, p)
    nul = False
    if r.random() < 0.03:
        t += r.choice([b"%00", b"%00x", b"%00/../../secret.txt"])
        nul = True
    d = {"m": m, "p": p, "t": t, "nul": nul}
    hd, body = [], b""
    if m == b"PUT":
        body = r.randbytes(r.choice([0, 1, 10, 100, 5000, 20000])) if r.random() < 0.5 else b"put-%d" % r.randrange(10 ** 9)
        hd.append((b"Content-Length", b"%d" % len(body)))
        d["body"] = body
        d["cl"] = True
        if r.random() < 0.03:
            hd, body = [], b""
            d["cl"] = False
            d["body"] = b""
    elif m == b"MOVE":
        q = rpath(r, tree)
        dst = pre + quote(r, q)
        x = r.random()
        d["q"] = q
        d["dn"] = False
        d["kind"] = "in"
        if x < 0.05:
            dst += r.choice([b"%00", b"%00y"])
            d["dn"] = True
        elif x < 0.2 and mount != "-":
            o = r.choice([b"/", b"/other/", b"/w", b"/wx/", b"", b"/wd/../", b"/%77d2/"])
            dst = o + r.choice([b"a", b"new", b"../secret.txt", b"", b"wd/new"])
            d["kind"] = "odd"
        if r.random() < 0.6:
            dst = r.choice([b"http://localhost", b"http://a:8080", b"https://user@h:1"]) + dst
        elif r.random() < 0.05:
            dst = r.choice([b"", b"x", b"http:", b"http://", b"http://a", b"//", b"//a/b", b"a/b/c/d", b"http:/" + dst, b"*"])
            d["kind"] = "odd"
        if dst:
            hd.append((b"Destination", dst))
        else:
            d["kind"] = "none"
        d["dst"] = dst
        x = r.random()
        if x < 0.2:
            hd.append((b"Overwrite", r.choice([b"F", b"f"])))
            d["ow"] = False
        elif x < 0.3:
            hd.append((b"Overwrite", b"T"))
        d.setdefault("ow", True)
    elif m == b"PROPFIND":
        x = r.random()
        depth = b"0" if x < 0.3 else b"1" if x < 0.9 else r.choice([b"infinity", b"2", b"x", b"-1", None])
        if depth is not None:
            hd.append((b"Depth", depth))
        d["depth"] = depth
        x = xml_propfind(r)
        if x is not None:
            body = x.encode()
            hd.append((b"Content-Type", b"text/xml"))
            hd.append((b"Content-Length", b"%d" % len(body)))
    elif m == b"PROPPATCH":
        v = r.choice(["T", "F", "true", "false"])
        x, good = xml_proppatch(r, v)
        body = x.encode()
        hd.append((b"Content-Type", b"text/xml"))
        hd.append((b"Content-Length", b"%d" % len(body)))
        d["x"] = v[0] in "Tt"
        d["good"] = good
    r.shuffle(hd)
    return request(m, t, hd, body), d


def gen(r, predict):
    """A history.  The generator follows what should happen so that later steps find something to work on."""
    g = mk(r)
    mount = r.choice(["-", "^wd/", "^wd"])
    how = r.choice([b"@/share", b"@/share", b"@/share/", b"share", b"./share"])
    lines = list(g.lines) + ["HND webdav %s %s" % (how.hex(), mount), "SET mem %d" % (r.random() < 0.8), "TREE"]
    fault = {}
    huge = getattr(g, "huge", False)
    if r.random() < 0.35 and not huge:
        lines.append("SET xdev 1")
        fault["xdev"] = 1
        if r.random() < 0.5:
            lines.append("SET wcap %d" % r.choice([1, 100, 1000]))
            lines.append("SET rcap %d" % r.choice([1, 100, 1000]))
        if r.random() < 0.4:
            fault["wfail"] = r.choice([0, 1, 100, 4096, 5000])
            lines.append("SET wfail %d" % fault["wfail"])
    tree = dict(g.tree)
    steps = []
    for _ in range(r.randrange(4, 14)):
        q, d = one_step(r, tree, mount)
        while huge and d["m"] == b"GET":
            q, d = one_step(r, tree, mount)
        steps.append(d)
        lines += ["REQ " + q.hex(), "NEW", "TREE"]
        predict(tree, d)
    return lines, {"steps": steps, "mount": mount, "fault": fault}


def subtree(tree, p):
    return {q: n for q, n in tree.items() if q == p or q.startswith(p + b"/")}


def node_eq(a, b):
    return a == b


def target_of(tree, rel):
    """where a path of the share names its entry: (canonical path of the entry, node) - last link not followed; None if it cannot be"""
    t = resolve(tree, SHARE + b"/" + rel.rstrip(b"/") if rel.rstrip(b"/") else SHARE, follow_last=False)
    return t


def rename(tree, a, b):
    """the tree after renaming the entry a to b, or None when the system refuses"""
    na = tree.get(a)
    nb = tree.get(b)
    if na is None or a == b:
        return dict(tree) if na is not None else None
    if b.startswith(a + b"/"):
        return None
    if nb is not None:
        if na[0] == "d":
            if nb[0] != "d" or len(subtree(tree, b)) > 1:
                return None
        elif nb[0] == "d":
            return None
    out = {q: n for q, n in tree.items() if q not in subtree(tree, a) and q not in subtree(tree, b)}
    for q, n in subtree(tree, a).items():
        out[b + q[len(a):]] = n
    return out


def predict(tree, d):
    """approximately what the step does; only to keep the history interesting"""
    if d["nul"]:
        return
    t = target_of(tree, d["p"])
    if t is None or t[0] is None or not inside(t[0], SHARE):
        return
    p = t[0]
    if d["m"] == b"PUT" and (t[1] is None or t[1][0] != "d"):
        tree[p] = ("f", 0o600, len(d["body"]), d["body"])
    elif d["m"] == b"DELETE" and t[1] is not None and len(subtree(tree, p)) == 1:
        del tree[p]
    elif d["m"] == b"MKCOL" and t[1] is None:
        tree[p] = ("d", 0o755)
    elif d["m"] == b"MOVE" and d.get("kind") == "in" and t[1] is not None:
        u = target_of(tree, d["q"])
        if u is None or u[0] is None or not inside(u[0], SHARE):
            return
        n = rename(tree, p, u[0])
        if n is not None:
            tree.clear()
            tree.update(n)


def strip_modes(tree, only=None):
    """the tree without the modes of the files that were just written"""
    return {p: (n[0],) + n[2:] if p in (only or ()) and n[0] == "f" else n for p, n in tree.items()}


def diff(a, b):
    out = []
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            out.append("%r: %s -> %s" % (p, short(a.get(p)), short(b.get(p))))
    return "; ".join(out[:8])


def short(n):
    if n is None:
        return "nothing"
    return repr(n if n[0] != "f" else ("f", oct(n[1]), n[2], (n[3] or b"")[:20]))


def simple(rel):
    """a path with nothing special about it"""
    return rel and not rel.endswith(b"/") and all(c not in (b"", b".", b"..") and len(c) < 200 for c in rel.split(b"/")) and len(rel) < 400


def plain_walk(tree, rel):
    """every directory of it exists and is no link"""
    parts = rel.split(b"/")[:-1]
    q = SHARE
    if not tree[q][1] & 0o100:
        return False
    for x in parts:
        q += b"/" + x
        n = tree.get(q, ("", 0))
        if n[0] != "d" or not n[1] & 0o100:
            return False
    return True


def hlen(a):
    return [v for n, v in a.headers if n.lower() == b"content-length"]


NS = "{DAV:}"


def check_propfind(ctx, bad, where, d, a, tree, mount, mtimes):
    try:
        root = ET.fromstring(a.body)
    except ET.ParseError as e:
        bad("propfind-xml", "%s: %s in %r" % (where, e, a.body[:300]))
        return
    base = {"-": b"/", "^wd/": b"/wd/", "^wd": b"/wd/"}[mount]
    t = resolve(tree, SHARE + b"/" + d["p"])
    if t is None or t[1] is None:
        bad("propfind-nothing", "%s: answered for what does not exist" % where)
        return
    real, node = t
    want = {}
    norm = lambda p: b"/" + b"/".join(x for x in p.split(b"/") if x)
    me = norm(base + d["p"])
    want[me] = (real, node)
    maybe = set()
    if d["depth"] not in (b"0", b"x", b"-1") and node[0] == "d":
        for p, n in tree.items():
            if p.startswith(real + b"/") and b"/" not in p[len(real) + 1:] and not p[len(real) + 1:].startswith(b"."):
                u = resolve(tree, p)
                key = norm(me + b"/" + p[len(real) + 1:])
                if u is None or u[1] is None:
                    if u is not None and u[0] is None:
                        maybe.add(key)
                    continue
                if not inside(u[0], SHARE):
                    maybe.add(key)
                want[key] = u
    got = {}
    for resp in root.findall(NS + "response"):
        href = resp.findtext(NS + "href")
        if not (href or "").startswith("/") or href.startswith("//"):
            bad("propfind-href", "%s: %r is not a path of this server" % (where, href))
        hp = norm(urllib.parse.unquote_to_bytes(href or ""))
        if hp in got:
            bad("propfind-twice", "%s: %r twice" % (where, hp))
        got[hp] = resp
    miss = [k for k in want if k not in got and k not in maybe]
    more = [k for k in got if k not in want and k not in maybe]
    if len(d["p"]) > 3000:
        miss = []              # some have names too long for the system
    if miss or more:
        bad("propfind-set", "%s: resources %r; missing %r, unexpected %r" % (where, sorted(got)[:10], miss[:5], more[:5]))
        return
    for k, resp in got.items():
        if k not in want or k in maybe:
            continue
        real, node = want[k]
        if not inside(real, SHARE):
            continue
        ok = None
        for ps in resp.findall(NS + "propstat"):
            if "200" in (ps.findtext(NS + "status") or ""):
                ok = ps.find(NS + "prop")
        if ok is None:
            continue
        l = ok.findtext(NS + "getcontentlength")
        if l is not None and (node[0] != "f" or int(l) != node[2]):
            bad("propfind-length", "%s: %r of length %s, it is %s" % (where, k, l, short(node)))
        lm = ok.findtext(NS + "getlastmodified")
        if lm is not None and node[0] == "f" and real in mtimes:
            ctx.count("times_described")
            if lm != formatdate(mtimes[real], usegmt=True):
                bad("propfind-time", "%s: %r modified %s, it is %s" % (where, k, lm, formatdate(mtimes[real], usegmt=True)))
        rt = ok.find(NS + "resourcetype")
        if rt is not None and (rt.find(NS + "collection") is not None) != (node[0] == "d"):
            bad("propfind-type", "%s: %r: collection %s, it is %s" % (where, k, rt.find(NS + "collection") is not None, short(node)))
        ex = ok.findtext("{http://apache.org/dav/props/}executable")
        if ex is not None and node[0] == "f" and (ex == "true") != bool(node[1] & 0o111):
            bad("propfind-exec", "%s: %r: executable %s, mode %o" % (where, k, ex, node[1]))
        ctx.count("resources_described")
    ctx.count("propfinds")


def check_step(ctx, bad, d, o, T, U, p):
    """T before, U after"""
    m, rel, fault, mount = d["m"], d["p"], p["fault"], p["mount"]
    where = "%s %s%s%s" % (m.decode(), d["t"][:200].decode("latin1"), " -> %s (%s)" % (d["dst"][:200].decode("latin1"), "Overwrite" if d["ow"] else "no overwrite") if m == b"MOVE" else "", " %r" % fault if fault else "")
    if o.fsout:
        bad("out-of-scratch", "%s: %r" % (where, o.fsout))
    for op, fp in o.fs:
        fp = fp.lstrip(b"/")
        if not inside(fp, SHARE):
            bad("outside-access", "%s: %s of %r" % (where, op, fp))
    for x in o.left:
        if not x.startswith(b"/tmp/onion-") and b".." not in x:
            pass
        else:
            bad("temp", "%s: left %r behind" % (where, x))
    if b"SECRET-TOKEN" in o.out:
        bad("outside-content", "%s: content of a file outside" % where)
    out_t = {q: n for q, n in T.items() if not inside(q, SHARE)}
    out_u = {q: n for q, n in U.items() if not inside(q, SHARE)}
    if out_t != out_u or SHARE not in U:
        bad("outside-change", "%s: changed outside: %s" % (where, diff(T, U)))
        return
    closed = o.info.get("closed") == 1
    try:
        a = httpresp.parse(o.out, m.decode(), closed)
    except httpresp.Bad as e:
        if len(d["t"]) > 1500 or len(d.get("dst", b"")) > 1500 or not d.get("cl", True):      # refused as a request
            if T != U:
                bad("refused-change", "%s: no readable answer, and changed: %s" % (where, diff(T, U)))
            return
        bad("unreadable", "%s: %s" % (where, e))
        return
    ok = 200 <= a.code < 300
    ctx.count("%s_%s" % (m.decode().lower(), "done" if ok else "refused"))
    tgt = target_of(T, rel) if not d["nul"] else None
    ctx.distinct.add((m, a.code, None if tgt is None or tgt[1] is None else tgt[1][0], tgt is not None and inside(tgt[0], SHARE), simple(rel), bool(fault), mount, d.get("kind"), d.get("ow"), d.get("depth")))
    if not ok or m in (b"GET", b"HEAD", b"OPTIONS", b"PROPFIND"):
        if T != U:
            bad("%s-error-change" % m.decode().lower() if not ok else "%s-change" % m.decode().lower(), "%s: answered %d and changed: %s" % (where, a.code, diff(T, U)))
            return
    long_ = len(d["t"]) > 1500 or len(d.get("dst", b"")) > 1500
    node = tgt[1] if tgt is not None else None
    path = tgt[0] if tgt is not None else None
    plain = not d["nul"] and simple(rel) and plain_walk(T, rel)
    if m == b"PUT":
        if ok:
            if not d["cl"]:
                bad("put-nothing", "%s: done with no content" % where)
            elif d["nul"]:
                pass
            elif path is None or not inside(path, SHARE):
                bad("put-where", "%s: answered %d, but there is no such place" % (where, a.code))
            else:
                W = dict(T)
                W[path] = ("f", 0, len(d["body"]), d["body"][:65536])
                if strip_modes(W, [path]) != strip_modes(U, [path]):
                    bad("put-effect", "%s: answered %d; expected %s, got %s" % (where, a.code, diff(T, W), diff(T, U)))
        elif plain and d["cl"] and (node is None or node[0] == "f") and "wfail" not in fault and not long_:
            bad("put-refused", "%s: answered %d" % (where, a.code))
    elif m == b"DELETE":
        if ok and not d["nul"]:
            if path is None or node is None or not inside(path, SHARE) or path == SHARE:
                bad("delete-nothing", "%s: answered %d; deleted %s" % (where, a.code, diff(T, U)))
            else:
                W = {q: n for q, n in T.items() if q not in subtree(T, path)}
                if W != U:
                    bad("delete-effect", "%s: answered %d; expected %s, got %s" % (where, a.code, diff(T, W), diff(T, U)))
        elif plain and node is not None and not long_ and (node[0] == "f" or node[0] == "d" and node[1] & 0o100 and len(subtree(T, path)) == 1):
            bad("delete-refused", "%s: answered %d" % (where, a.code))
    elif m == b"MKCOL":
        if ok and not d["nul"]:
            if path is None or not inside(path, SHARE) or node is not None:
                bad("mkcol-where", "%s: answered %d; %s" % (where, a.code, diff(T, U)))
            else:
                W = dict(T)
                W[path] = ("d", 0o755)
                if W != U:
                    bad("mkcol-effect", "%s: answered %d; expected %s, got %s" % (where, a.code, diff(T, W), diff(T, U)))
        elif plain and node is None and not long_:
            bad("mkcol-refused", "%s: answered %d" % (where, a.code))
    elif m == b"MOVE":
        q = d["q"]
        if len(d["dst"]) > 8000:
            # the request parser keeps 8191 bytes of a header
            if ok and T != U and (path is None or node is None or rename(T, path, (target_of(T, q) or (b"", None))[0] or b"") != U):
                bad("move-long-destination", "%s: a destination of %d bytes: %s" % (where, len(d["dst"]), diff(T, U)))
            return
        if d["kind"] != "in":
            if ok and d["kind"] == "none":
                bad("move-nowhere", "%s: answered %d with no destination" % (where, a.code))
            # an odd destination may be understood in some way inside the share, never as a success out of it
            return
        dt = target_of(T, q) if not d["dn"] else None
        if ok and d["dn"]:
            bad("move-nul", "%s: answered %d for a name that cannot be: %s" % (where, a.code, diff(T, U)))
        if ok and (d["nul"] or d["dn"]):
            return
        good = path is not None and node is not None and dt is not None and dt[0] is not None and inside(path, SHARE) and inside(dt[0], SHARE)
        if ok:
            if not good or path == SHARE and (dt[0] != path or T != U):
                bad("move-where", "%s: answered %d; %s" % (where, a.code, diff(T, U)))
                return
            if not d["ow"] and dt[1] is not None and dt[0] != path:
                bad("move-overwrite", "%s: answered %d over %s" % (where, a.code, short(dt[1])))
            W = rename(T, path, dt[0])
            if W is None:
                bad("move-impossible", "%s: answered %d; %s" % (where, a.code, diff(T, U)))
            elif W != U:
                if fault.get("xdev") and node[0] == "l":
                    # copied to another file system: a link may become what it points to
                    u = resolve(T, path)
                    W2 = dict(W)
                    if u is not None and u[1] is not None:
                        W2[dt[0]] = u[1]
                    if W2 == U:
                        return
                bad("move-effect", "%s: answered %d; expected %s, got %s" % (where, a.code, diff(T, W), diff(T, U)))
        elif good and plain and simple(q) and plain_walk(T, q) and node[0] == "f" and (dt[1] is None or dt[1][0] == "f" and d["ow"]) and "wfail" not in fault and not long_:
            bad("move-refused", "%s: answered %d" % (where, a.code))
        elif good and plain and simple(q) and plain_walk(T, q) and node[0] == "d" and dt[1] is None and not fault and not dt[0].startswith(path + b"/") and not long_:
            bad("move-refused", "%s: answered %d" % (where, a.code))
    elif m == b"PROPPATCH":
        if ok and not d["nul"]:
            t = resolve(T, SHARE + b"/" + rel)
            if t is None or t[1] is None or not inside(t[0], SHARE):
                bad("proppatch-where", "%s: answered %d" % (where, a.code))
                return
            n = t[1]
            W = dict(T)
            if d["good"]:
                mode = (n[1] | 0o111) if d["x"] else (n[1] & ~0o111)
                W[t[0]] = (n[0], mode) + tuple(n[2:])
                if W != U and not (n[0] == "d"):
                    bad("proppatch-effect", "%s: answered %d; expected %s, got %s" % (where, a.code, diff(T, W), diff(T, U)))
            elif T != U:
                bad("proppatch-change", "%s: %s" % (where, diff(T, U)))
        elif plain and d["good"] and node is not None and node[0] == "f" and not long_:
            bad("proppatch-refused", "%s: answered %d" % (where, a.code))
    elif m == b"HEAD":
        t = resolve(T, SHARE + b"/" + rel) if not d["nul"] else None
        if ok and not d["nul"]:
            if t is None or t[1] is None or t[1][0] != "f" or not inside(t[0], SHARE):
                bad("head-where", "%s: answered %d" % (where, a.code))
            elif hlen(a) != [b"%d" % t[1][2]]:
                bad("head-length", "%s: length %r, the file has %d" % (where, hlen(a), t[1][2]))
        elif plain and t is not None and t[1] is not None and t[1][0] == "f" and inside(t[0], SHARE) and node[0] == "f" and not long_:
            bad("head-refused", "%s: answered %d" % (where, a.code))
    elif m == b"GET":
        t = resolve(T, SHARE + b"/" + rel) if not d["nul"] else None
        if ok and not d["nul"]:
            if t is None or t[1] is None or t[1][0] != "f" or not inside(t[0], SHARE):
                bad("get-where", "%s: answered %d with %d bytes" % (where, a.code, len(a.body)))
            elif a.body != t[1][3]:
                bad("get-content", "%s: other content" % where)
        elif plain and t is not None and t[1] is not None and t[1][0] == "f" and inside(t[0], SHARE) and node[0] == "f" and not long_:
            bad("get-refused", "%s: answered %d" % (where, a.code))
    elif m == b"PROPFIND":
        if a.code == 207 and not d["nul"]:
            check_propfind(ctx, bad, where, d, a, T, mount, o.mtimes)
        elif plain and node is not None and node[0] in "fd" and d["depth"] in (b"0", b"1") and a.code not in (207, 400) and not long_:
            bad("propfind-refused", "%s: answered %d" % (where, a.code))
    ctx.sample("%s -> %d: %s" % (where, a.code, diff(T, U)))


def run(ctx):
    r = ctx.rng
    ctx.rule = "distinct (method, answer, kind of the target, inside, plain path, fault, mount, destination, overwrite, depth)"
    ctx.assumptions = ["requests come one by one: what happens when the tree changes under a request is not explored", "the properties of a link's target are shown as the link's",
                       "the root is kept from being empty, so deleting it always fails"]
    b = fileslib.binary()
    cases, plans = [], {}
    for i in range(ctx.n(5000, 60000)):
        lines, p = gen(r, predict)
        cases.append(("c%d" % i, "\n".join(lines)))
        plans["c%d" % i] = p
    dst = b"/" + b"%2e%2F" * 1362 + b"longname-of-the-destination"
    d = {"m": b"MOVE", "p": b"a", "t": b"/a", "nul": False, "q": b"./" * 1362 + dst[1 + 1362 * 6:], "dn": False, "kind": "in", "dst": dst, "ow": True}
    cases.append(("long", "\n".join(["DIR 7368617265", "FILE %s 644 0 616263 3" % h("share/a"), "HND webdav %s -" % h("@/share"), "TREE",
                                     "REQ " + request(b"MOVE", b"/a", [(b"Destination", dst)]).hex(), "NEW", "TREE"])))
    plans["long"] = {"steps": [d], "mount": "-", "fault": {}}
    texts = dict(cases)
    res = fileslib.run(ctx, b, cases, timeout=400)
    live = srvlib.die_report(ctx, res, cases)
    for cid, lines in live.items():
        p = plans[cid]
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        rs, first, misc = fileslib.observe(lines)

        def bad(k, d):
            ctx.violation(k, "case %s: %s" % (cid, d), rep)
        if misc["hnd"] != [1]:
            bad("handler", "no handler")
            continue
        if misc["res"].get("allocs") or misc["res"].get("fds"):
            bad("leak", "left behind: %r" % (misc["res"],))
        if len(rs) != len(p["steps"]) or first is None:
            bad("lost", "%d steps, %d observed" % (len(p["steps"]), len(rs)))
            continue
        T = first
        for d, o in zip(p["steps"], rs):
            ctx.evals += 1
            check_step(ctx, bad, d, o, T, o.tree, p)
            T = o.tree
    for k in ("put_done", "put_refused", "delete_done", "delete_refused", "mkcol_done", "move_done", "move_refused", "proppatch_done", "get_done", "propfinds", "resources_described", "times_described", "head_done"):
        ctx.require(ctx.extra.get(k, 0) > 20, "%s: %s" % (k, ctx.extra.get(k, 0)))
