"""Exported directories never serve anything outside them."""
import base64, html.parser, json, os, urllib.parse
from .. import core, fileslib, httpresp, srvlib, build
from ..fileslib import h, request, quote, resolve, inside

HOSTILE = ["<b>", "<script>pwned()</script>", "</script><script>pwned()//", "');pwned();//", "\\');pwned();//", "']];pwned();[['", "\"><svg onload=pwned()>", "&lt;", "&amp;amp;",
           "a'b", "a\"b", "a\\b", "a\\", "a%20b", "%41", "%", "%zz", "100%", "a b", " lead", "trail ", "a\nb", "a\tb", "a\rb", "a?b=c", "a#b", "a;b", "a&b=c", "a=b", "a:b", "a,b", "a|b",
           "~", "a~", "x y z", "ñandú", "日本", "\u2028x", "</title><img src=x onerror=pwned()>", "${pwned()}", "`pwned()`", "{{x}}", "-->", "<!--", "]]>", "a[0]", "(a)", "!", "*", "@", "$HOME",
           "..a", "a..", "...", "a...b", "javascript:pwned()", "\x01", "\x7f"]
PLAIN = ["a", "b.txt", "index.html", "c.tar.gz", "readme", "x1", "z.png"]
DOT = [".hidden", ".htpasswd", "..x"]

MIX = ("export,listing",)      # kinds of handlers also run concurrently (harness/mix.h)


def name(r, dot=False):
    x = r.random()
    if dot and x < 0.1:
        return r.choice(DOT).encode()
    if x < 0.45:
        return r.choice(PLAIN).encode() if x < 0.3 else (r.choice(PLAIN) + str(r.randrange(100))).encode()
    if x < 0.9:
        n = r.choice(HOSTILE) + (r.choice(HOSTILE) if r.random() < 0.2 else "")
        n = n.replace("/", "∕" if r.random() < 0.2 else "")
        return n.encode() or b"e"
    if x < 0.95:
        return bytes(r.choice(b"abc") for _ in range(r.choice([200, 254, 255])))
    return bytes(r.choice(b"ab\x80\xff\xc3(") for _ in range(r.randrange(1, 6)))     # not UTF-8


class Gen:
    def __init__(self, r):
        self.r = r
        self.lines = []
        self.tree = {}
        self.k = 0

    def mkdir(self, p):
        q = b""
        for x in p.split(b"/"):
            q = q + b"/" + x if q else x
            if q not in self.tree:
                self.tree[q] = ("d", 0o755)
        self.lines.append("DIR " + h(p))

    def file(self, p, secret=False):
        self.k += 1
        tok = (b"SECRET-TOKEN-%d-" if secret else b"content-%d-") % self.k + self.r.randbytes(6).hex().encode()
        n = len(tok) if self.r.random() < 0.9 else self.r.choice([17000, 5000])
        d = fileslib.content(tok, n)
        self.tree[p] = ("f", 0o644, n, d)
        self.lines.append("FILE %s 644 0 %s %d" % (h(p), tok.hex(), n))

    def link(self, p, t):
        self.tree[p] = ("l", t)
        self.lines.append("LINK %s %s" % (h(p), t.hex()))


def build_tree(r):
    g = Gen(r)
    share = r.choice([b"share", b"share", b"sh", b"deep/er/share", b"s p", b"s'<b>", b"share."])
    g.mkdir(share)
    for sib in (share + b"2", share + b"-private", share + b".bak", share.swapcase(), share[:-1] + share[-1:].swapcase(), share[:-1] if len(share) > 1 and not share[:-1].endswith(b"/") else b"zz"):
        if sib in g.tree or sib + b"/" in g.tree:
            continue
        if sib and not sib.endswith(b"/"):
            g.file(sib + b"/secret.txt", True)
            g.mkdir(sib)
            g.tree.setdefault(sib, ("d", 0o755))
    g.file(b"secret.txt", True)
    g.mkdir(b"outside/sub")
    g.file(b"outside/secret.txt", True)
    g.file(b"outside/sub/secret2.txt", True)
    dirs = [share]
    for _ in range(r.randrange(0, 5)):
        d = r.choice(dirs)
        n = name(r)
        if len(d) + len(n) > 900 or d + b"/" + n in g.tree:
            continue
        dirs.append(d + b"/" + n)
        g.mkdir(d + b"/" + n)
    files = []
    for _ in range(r.randrange(1, 9)):
        d = r.choice(dirs)
        n = name(r, True)
        if d + b"/" + n in g.tree:
            continue
        g.file(d + b"/" + n)
        files.append(d + b"/" + n)
    links = []
    for _ in range(r.randrange(0, 6)):
        d = r.choice(dirs)
        n = b"l%d" % r.randrange(1000) if r.random() < 0.8 else name(r)
        p = d + b"/" + n
        if p in g.tree:
            continue
        up = b"../" * (d.count(b"/") + 1)
        t = r.choice([b"@/secret.txt", b"@/outside", b"@/outside/secret.txt", up + b"secret.txt", up + b"outside", up + b"outside/sub", b"@/" + share + b"2", b"@/" + share + b"2/secret.txt", b"@/" + share.swapcase() + b"/secret.txt", b"@/" + share[:-1] + share[-1:].swapcase(),
                      b"@/" + share, b"..", b".", n, b"nowhere", b"@/nowhere", b"@/" + r.choice(dirs), b"@/" + (r.choice(files) if files else share), up + (r.choice(files) if files else share),
                      b"@/" + share + b"/../secret.txt", b"@", b"@/" + share + b"-private/../" + share])
        g.link(p, t)
        links.append(p)
    return g, share, dirs, files, links


def paths(r, g, share, dirs, files, links):
    """request paths, decoded, relative to the share"""
    rel = lambda p: p[len(share) + 1:] if p != share else b""
    x = r.random()
    if x < 0.3 and files:
        return rel(r.choice(files))
    if x < 0.45:
        return rel(r.choice(dirs)) + r.choice([b"", b"/"])
    if x < 0.6 and links:
        return rel(r.choice(links)) + r.choice([b"", b"", b"/", b"/secret.txt", b"/sub", b"/sub/secret2.txt", b"/..", b"/../secret.txt", b"/../../secret.txt", b"/" + b"a"])
    d = rel(r.choice(dirs))
    base = share.split(b"/")[-1]
    up = r.choice([b"..", b"../..", b"../../..", b".", b"./..", b"..//..", b"a/../..", b"nonexistent/../..", b"../" * 20 + b".."])
    tail = r.choice([b"secret.txt", b"outside/secret.txt", base + b"2/secret.txt", base + b"-private/secret.txt", base, base + b"/a", base + b"/../secret.txt", b"", b"2/secret.txt", b"etc/passwd",
                     base + b".bak/secret.txt", base + b"2", base + b"2/", base + b"-private"])
    x = r.random()
    if x < 0.6:
        return (d + b"/" if d and r.random() < 0.5 else b"") + up + b"/" + tail
    if x < 0.75:
        return r.choice([b"2/secret.txt", b"-private/secret.txt", b".bak/secret.txt", b"//etc/passwd", b"/etc/passwd", b"~root", b".hidden", b"..", b"../", b"...", b".", b"./", b"//", b"///..", b"..\\secret.txt"])
    if x < 0.9 and files:
        f = rel(r.choice(files))
        return r.choice([f + b"/", f + b"/.", f + b"/..", b"./" + f, b"//" + f, f.replace(b"/", b"//"), f + b"x", f[:-1], f + b"/../" + f.split(b"/")[-1], b"x/../" + f,
                         (d + b"/../" * (d.count(b"/") + 1) if d else b"") + f, b"./" * 300 + f, b"/" * 500 + f])
    n = r.choice([255, 256, 1000, 3000, 4000, 4090, 4096, 5000, 7000])
    return r.choice([b"a" * n, (b"a" * 200 + b"/") * (n // 200), b"../" * (n // 3) + b"secret.txt", b"./" * (n // 2) + (rel(r.choice(files)) if files else b"a"), b"x/../" * (n // 5) + b"a"])


def gen(r):
    g, share, dirs, files, links = build_tree(r)
    how = r.choice([b"@/" + share, b"@/" + share, b"@/" + share + b"/", b"@/" + share + b"/.", share, b"./" + share, b"@/outside/../" + share])
    single = None
    if files and r.random() < 0.06:
        single = r.choice(files)
        how = b"@/" + single
    elif r.random() < 0.1:
        g.link(b"entry", b"@/" + share)
        how = b"@/entry"
    mount = r.choice(["-", "-", "^files/", "^files"])
    lines = list(g.lines) + ["SET mem %d" % (r.random() < 0.7), "HND export %s %s" % (how.hex(), mount)]
    plan = []
    lst = [(b"GET", d, "list") for d in dirs] + [(b"GET", f, "file") for f in files]
    r.shuffle(lst)
    reqs = [(m, p[len(share) + 1:], k) for m, p, k in lst[:6]]
    for _ in range(r.randrange(3, 9)):
        reqs.append((b"GET" if r.random() < 0.9 else b"HEAD", paths(r, g, share, dirs, files, links), "x"))
    for m, p, k in reqs:
        pre = b"/" if mount == "-" else b"/files/"
        if b"+" in p:
            p = p.replace(b"+", b"_")
        t = pre + quote(r, p)
        if r.random() < 0.05:
            t = t + r.choice([b"%00", b"%00.txt", b"%00/../../secret.txt"])
            nul = True
        else:
            nul = False
        if r.random() < 0.1:
            t += r.choice([b"?x=1", b"?../../secret.txt", b"?"])
        plan.append((m, p, nul, t))
        lines.append("REQ " + request(m, t).hex())
        if r.random() < 0.5:
            lines.append("NEW")
    return lines, {"tree": g.tree, "share": share, "single": single, "reqs": plan, "mount": mount}


class Page(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags = []
        self.text = []
        self.stack = []
        self.h1 = ""
        self.title = ""

    def handle_starttag(self, t, a):
        self.tags.append((t, dict(a)))
        if t not in ("meta",):
            self.stack.append(t)

    def handle_startendtag(self, t, a):
        self.tags.append((t, dict(a)))

    def handle_endtag(self, t):
        while self.stack and self.stack[-1] != t:
            self.stack.pop()
        if self.stack:
            self.stack.pop()

    def handle_data(self, d):
        if self.stack and self.stack[-1] == "h1":
            self.h1 += d
        if self.stack and self.stack[-1] == "title":
            self.title += d

    def handle_comment(self, d):
        self.tags.append(("!--", {}))


class Rows(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.rows = []
        self.tags = set()
        self.in_a = False

    def handle_starttag(self, t, a):
        self.tags.add(t)
        if t == "a":
            self.in_a = True
            self.rows.append([dict(a).get("href", ""), ""])

    def handle_endtag(self, t):
        if t == "a":
            self.in_a = False

    def handle_data(self, d):
        if self.in_a:
            self.rows[-1][1] += d


OKTAGS = {"html", "head", "meta", "title", "body", "script", "style", "h1", "h2", "a", "table", "thead", "tr", "th", "tbody"}


def check_listing(ctx, bad, where, page, ev, tree, real):
    entries = {}
    for p, n in tree.items():
        if p.startswith(real + b"/") and b"/" not in p[len(real) + 1:] or real == b"" and b"/" not in p:
            nm = p[len(real) + 1:] if real else p
            if nm.startswith(b"."):
                continue
            t = resolve(tree, p)
            isdir = n[0] == "d" or n[0] == "l" and t is not None and t[0] is not None and t[1] is not None and t[1][0] == "d"
            maybe = n[0] == "l" and (t is None or t[0] is None)      # of things that are not in the scratch nothing is known
            entries[nm] = None if maybe else isdir
    P = Page()
    P.feed(page.decode("utf-8", "replace"))
    for t, a in P.tags:
        if t not in OKTAGS or any(k.startswith("on") and not (v or "").startswith("update(") for k, v in a.items()):
            bad("markup", "%s: unexpected markup in a listing: %s %r" % (where, t, a))
            return
        if t == "a" and a.get("href") not in ("..",) and not a.get("href", "").startswith("http://www."):
            bad("markup-link", "%s: unexpected link in a listing: %r" % (where, a))
            return
    if ev["pwned"] or ev["error"] or ev["scripts"] != 1 or sum(1 for t, a in P.tags if t == "script") != 1:
        bad("script", "%s: the listing's script: %r" % (where, dict((k, ev[k]) for k in ("pwned", "error", "scripts"))))
        return
    rows = Rows()
    rows.feed(ev["rows"])
    if rows.tags - {"tr", "td", "a"}:
        bad("markup-rows", "%s: markup in the rows: %r" % (where, rows.tags))
    exact = all(_utf8(n) for n in entries)
    want = sorted(n.decode("utf-8", "replace") for n in entries)
    got = []
    for href, text in rows.rows:
        try:
            dec = urllib.parse.unquote(href, errors="strict")
        except UnicodeDecodeError:
            dec = None
        d = (dec or "").endswith("/")
        if dec is None or dec != text:
            bad("listing-link", "%s: entry %r links to %r" % (where, text, href))
            return
        if "?" in href or "#" in href or ":" in href.split("/")[0] or href.startswith("/"):
            bad("listing-href", "%s: entry %r links to %r" % (where, text, href))
            return
        nm = dec[:-1] if d else dec
        got.append(nm)
        if exact:
            e = entries.get(nm.encode("utf-8", "surrogatepass"), "no")
            if e in (True, False) and e != d:
                bad("listing-kind", "%s: %r shown as %s" % (where, nm, "a directory" if d else "a file"))
    if sorted(got) != want:
        bad("listing", "%s: lists %r, the directory has %r" % (where, sorted(got), want))
    ctx.count("listings")
    ctx.count("listed_entries", len(got))


def _utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def run(ctx):
    r = ctx.rng
    ctx.rule = "distinct (answer code, kind of the resolved target, inside or not, has dots, encoding, through a link, method, mount)"
    ctx.assumptions = ["the tree does not change while a request is served", "entries starting with a dot are not listed", "names that are not UTF-8 are listed with replaced characters"]
    b = fileslib.binary()
    cases, plans = [], {}
    for i in range(ctx.n(3000, 40000)):
        lines, p = gen(r)
        cases.append(("c%d" % i, "\n".join(lines)))
        plans["c%d" % i] = p
    texts = dict(cases)
    res = fileslib.run(ctx, b, cases, timeout=400)
    live = srvlib.die_report(ctx, res, cases)
    pages = []
    for cid, lines in live.items():
        p = plans[cid]
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        rs, first, misc = fileslib.observe(lines)

        def bad(k, d):
            ctx.violation(k, "case %s: %s" % (cid, d), rep)
        if misc["hnd"] != [1]:
            bad("handler", "the directory could not be exported")
            continue
        if misc["res"].get("allocs") or misc["res"].get("fds"):
            bad("leak", "left behind: %r" % (misc["res"],))
        tree, share = p["tree"], p["share"]
        if len(rs) != len(p["reqs"]):
            bad("lost", "%d requests, %d observed" % (len(p["reqs"]), len(rs)))
            continue
        for (m, path, nul, target), o in zip(p["reqs"], rs):
            ctx.evals += 1
            where = "%s %s" % (m.decode(), target[:300])
            if o.fsout:
                bad("out-of-scratch", "%s: %r" % (where, o.fsout))
            limit = p["single"] or share
            for op, fp in o.fs:
                fp = fp.lstrip(b"/")
                if op not in ("open", "opendir") or not inside(fp, limit):
                    bad("outside-access", "%s: %s of %r, out of %r" % (where, op, fp, limit))
            if b"SECRET-TOKEN" in o.out:
                bad("outside-content", "%s: content of a file out of the exported directory" % where)
            try:
                a = httpresp.parse(o.out, m.decode(), o.info.get("closed") == 1)
            except httpresp.Bad as e:
                if len(target) > 1000:       # answered or refused as a request, not of this property
                    continue
                bad("unreadable", "%s: %s" % (where, e))
                continue
            if nul:
                ctx.count("nul_paths")
                continue
            if p["single"]:
                n = tree[p["single"]]
                if a.code != 200 or m == b"GET" and a.body != n[3]:
                    bad("single", "%s: exported file answered %d, %d bytes" % (where, a.code, len(a.body)))
                continue
            full = share + b"/" + path
            t = resolve(tree, full)
            ok = t is not None and t[1] is not None and inside(t[0], share)
            via = t is not None and t[0] is not None and t[0] != full.rstrip(b"/")
            kind = "none" if t is None or t[1] is None else t[1][0]
            ctx.distinct.add((a.code, kind, ok, b".." in path, b"%2" in target or b"%5" in target, via, m, p["mount"], len(path) > 255))
            long_ = len(target) > 1500
            if not ok:
                # what cannot be walked (a file as a directory, nothing there) or is outside
                if a.code == 200 and not (t is not None and t[0] is None):
                    bad("served-outside", "%s: answered 200 with %d bytes; it is %s" % (where, len(a.body), "nothing" if t is None or t[1] is None else "outside, at %r" % t[0]))
                elif a.code == 200:
                    bad("served-outside", "%s: answered 200; it is out of the scratch" % where)
                if a.code == 404:
                    ctx.count("refused" if t is not None and (t[0] is None or t[1] is not None) else "missing")
                continue
            if long_ and a.code != 200:
                ctx.count("long_refused")
                continue
            if a.code != 200:
                bad("not-served", "%s: answered %d, it is %r" % (where, a.code, t[0]))
                continue
            if kind == "f":
                if m == b"GET" and a.body != t[1][3]:
                    bad("content", "%s: other content than that of %r: %r, should be %r" % (where, t[0], a.body[:60], t[1][3][:60]))
                ctx.count("files_served")
                if via:
                    ctx.count("files_via_links_or_dots")
            elif kind == "d" and m == b"GET":
                ctx.count("dirs_served")
                pages.append((cid, where, a.body, t[0]))
            ctx.sample(where + " -> %d" % a.code)
    # the pages, as a browser runs them
    js = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "listing.js")
    evs = []
    for i in range(0, len(pages), 2000):
        rc, o, e = core.run_tool(["node", js], 300, stdin=json.dumps([base64.b64encode(x[2]).decode() for x in pages[i:i + 2000]]).encode())
        if rc != 0:
            raise core.HarnessError("node: %s" % e[-500:])
        evs += json.loads(o)
    for (cid, where, body, real), ev in zip(pages, evs):
        def bad(k, d):
            ctx.violation(k, "case %s: %s\n%s" % (cid, d, body.decode("utf-8", "replace")[-1500:]), "CASE %s\n%s\nEND\n" % (cid, texts[cid]))
        check_listing(ctx, bad, where, body, ev, plans[cid]["tree"], real)
    for k in ("files_served", "dirs_served", "refused", "missing", "files_via_links_or_dots", "listings", "listed_entries", "nul_paths"):
        ctx.require(ctx.extra.get(k, 0) > 20, "%s: %s" % (k, ctx.extra.get(k, 0)))
