"""Packed assets are served exactly as they were packed."""
import os, re
from .. import build, core, httpresp, toolslib

LENS = [0, 1, 2, 3, 4, 5, 6, 15, 16, 17, 31, 100, 255, 256, 1000, 1460, 1500, 4000, 4094, 4095, 4096, 4097, 8189, 8190, 8191, 20000]
EXTS = [".txt", ".html", ".css", ".js", ".png", "", ".unknown", ".tar.gz", ".TXT", ".jpg"]
NAMES = ["a", "index", "jquery.min", "sp ace", "quo\"te", "back\\slash", "per%cent", "caf\u00e9", "tab\there", "new\nline", "q?mark", "ha#sh", "am&p", "x;y", "a'b", "dash-", "n0", "9lives", "UPPER", "br{ace}", "%s%n", "??-??!", "plus+", "=", "a.b.c", "ti~lde", "~home",
         "long" * 40]


def fname(prefix, name):
    s = "opack_" + prefix + ("_" if prefix and name else "") + name
    return "".join(c if c.isascii() and c.isalnum() else "_" * len(c.encode()) for c in s)


def data(r):
    n = r.choice(LENS)
    x = r.random()
    if x < 0.5:
        return r.randbytes(n)
    if x < 0.8:
        return (b"<html>\r\n\"\\%s" * (n // 10 + 1))[:n]
    return bytes([r.choice([0, 255, 127, 128, 10])]) * n


def tree(r, depth):
    """name -> bytes or dict"""
    d = {}
    for _ in range(r.randrange(0 if depth < 3 else 1, 5)):
        n = r.choice(NAMES) + r.choice(EXTS)
        if n in d:
            continue
        d[n] = data(r)
    if depth > 0:
        for _ in range(r.randrange(0, 3)):
            n = r.choice(NAMES + ["dir", "sub", "static"])
            if n not in d:
                d[n] = tree(r, depth - 1)
    if r.random() < 0.3:
        d[".hidden"] = b"HIDDEN"
    if r.random() < 0.3:
        d["backup.txt~"] = b"BACKUP"
    if r.random() < 0.1 and depth:
        d[".git"] = {"config": b"SECRET"}
    return d


def ignored(n):
    return n.startswith(".") or n.endswith("~")


def funcs(prefix, d, acc):
    for n, v in d.items():
        if ignored(n):
            continue
        acc.append(fname(prefix, n))
        if isinstance(v, dict):
            funcs(prefix + ("/" if prefix else "") + n, v, acc)
    return acc


def files(d, pre=""):
    for n, v in d.items():
        if ignored(n):
            continue
        if isinstance(v, dict):
            yield from files(v, pre + n + "/")
        else:
            yield pre + n, v


def write(path, v, r, links):
    if isinstance(v, dict):
        if r.random() < 0.15:                      # a link to the directory
            real = "%s/d%d" % (links, len(os.listdir(links)))
            os.mkdir(real)
            os.symlink(real, path)
        else:
            os.mkdir(path)
        for n, w in v.items():
            write(os.path.join(path, n), w, r, links)
    else:
        with open(path, "wb") as f:
            f.write(v)


def quote(s):
    return "".join(c if c.isascii() and (c.isalnum() or c in "/-_.") else "".join("%%%02X" % b for b in c.encode()) for c in s)


def run(ctx):
    r = ctx.rng
    opack = toolslib.tool("opack")
    d = os.path.join(ctx.scratch, "p")
    os.makedirs(d)
    links = os.path.join(d, "links")
    os.mkdir(links)
    assets = os.path.join(d, "assets.h")
    ctx.rule = "a request for a packed file, or for something not packed, compared with the packed bytes"
    used = set()
    packs = []             # (cfile, [(fn, kind, content)])
    n = ctx.n(90, 600)
    for i in range(n):
        src = os.path.join(d, "s%d" % i)
        os.mkdir(src)
        args, items = [], []
        for j in range(r.randrange(1, 4)):
            for _ in range(50):
                if r.random() < 0.6:
                    name, v = r.choice(["static", "www", "dir.d", "my-dir", "a"]) + "%d_%d" % (i, j), tree(r, r.choice([0, 1, 2, 3]))
                    slash = r.random() < 0.15 and "" not in used
                    pre = "" if slash else name
                    fs = [fname(pre, "")] + funcs(pre, v, [])
                    if slash:
                        fs = [fname(pre, "")] + funcs("", v, [])
                else:
                    name, v, slash, pre = "f%d_%d" % (i, j) + r.choice(NAMES)[:100] + r.choice(EXTS), data(r), False, ""
                    fs = [fname("", name)]
                if len(set(fs)) == len(fs) and not (set(fs) & used):
                    break
            else:
                continue
            used |= set(fs)
            p = os.path.join(src, name)
            write(p, v, r, links)
            args.append(p + ("/" if slash else ""))
            items.append((fs[0], v, name))
        if not items:
            continue
        c = os.path.join(d, "pack%d.c" % i)
        opts = ["-o", c, "-a", assets]
        if r.random() < 0.5:
            opts = ["-a", assets, "-o", c]
        cmd = opts + args if r.random() < 0.4 else args + opts
        rc, o, err = core.run_tool([opack] + cmd, 60, cwd=d)
        ctx.count("packs")
        what = "opack %s" % " ".join(os.path.relpath(a, d) if a.startswith(d) else a for a in cmd)
        if toolslib.crashed(rc, err):
            ctx.violation("packer:" + core.san_key(err), "%s crashed\n%s" % (what, core.san_excerpt(err)), what)
        elif rc != 0:
            ctx.violation("packer-failed", "%s: %s" % (what, err[-600:]), what)
        else:
            packs.append((c, items, what))
    if ctx.violations:
        return
    objs = [(c, c + ".o") for c, _, _ in packs]
    for (c, items, what), e in zip(packs, toolslib.compile_many(objs, ["-I" + d])):
        if e:
            ctx.violation("does-not-compile", "%s: %s" % (what, e[:1500]), repr(items)[:20000])
    if ctx.violations:
        return
    with open(assets) as f:
        h = f.read()
    for c, items, what in packs:
        for fn, v, name in items:
            k = len(re.findall(r"\bonion_connection_status\s+%s\s*\(" % fn, h))
            if k != 1:
                ctx.violation("assets", "%s is declared %d times in the assets header" % (fn, k), h)
                return
    ctx.count("assets_bytes", len(h))
    tab = os.path.join(d, "pack_table.c")
    with open(tab, "w") as f:
        f.write('#include <onion/types.h>\n#include "%s"\n#include "pack.h"\n' % assets)
        every = [x for _, items, _ in packs for x in items]
        for fn, v, name in every:
            if not isinstance(v, dict):
                f.write("extern const unsigned int %s_length;\n" % fn)
        f.write("const struct packed packs[] = {\n")
        for fn, v, name in every:
            f.write('{"%s", %s, %s},\n' % (fn, fn, "0" if isinstance(v, dict) else "&%s_length" % fn))
        f.write("};\nconst int pack_count = %d;\n" % len(every))
    e = toolslib.compile_c(tab, tab + ".o")
    if e:
        ctx.violation("assets", "the assets header does not compile: %s" % e[:1500], h)
        return
    drv = build.compile_obj(os.path.join(build.VERIF, "harness", "pack.c"), "asan")
    binary = os.path.join(d, "serve")
    build._run(["clang"] + [x for x in build.FLAVORS["asan"] if x.startswith("-f")] + [drv, tab + ".o"] + [o for _, o in objs] + build.lib_objs("asan") + build.LIBS + ["-o", binary])

    def req(path, method="GET"):
        return ("%s /%s HTTP/1.1\r\nHost: x\r\n\r\n" % (method, quote(path))).encode().hex()
    cases = {}
    for k, (c, items, what) in enumerate(packs):
        for fn, v, name in items:
            ls, plan = [], []
            if isinstance(v, dict):
                fl = list(files(v))
                for p, b in fl:
                    ls += ["MIME %s" % ("x/" + p).encode().hex()]
                    m = r.choice(["GET", "GET", "GET", "HEAD"])
                    ls += ["REQ %s %s" % (fn, req(p, m))]
                    plan.append((m, p, b))
                have = {p for p, _ in fl}
                for _ in range(6):
                    p = r.choice(sorted(have)) if have else "x"
                    q = r.choice([p + "x", p[:-1], p + "/", "x" + p, p.split("/")[-1], p.upper(), "", ".hidden", "backup.txt~", ".git/config", "nosuch", os.path.dirname(p), p + "/x", p.replace("/", "//"), "./" + p, p + "\n", "../" + p])
                    if q not in have and not q.startswith("/"):
                        plan.append(("GET", q, None))
                        ls += ["REQ %s %s" % (fn, req(q))]
            else:
                ls += ["MIME %s" % ("x/" + name).encode().hex(), "LEN %s" % fn]
                for m in ("GET", "HEAD", "GET"):
                    ls.append("REQ %s %s" % (fn, req(r.choice(["", "x", name]), m)))
                    plan.append((m, name, v))
            cases["k%d-%s" % (k, fn)] = (ls, plan, fn, v, what)
    for i in range(ctx.n(60, 500)):
        b = data(r)
        p = r.choice(NAMES).replace("\n", "")
        q = r.choice([p, p, p, p + "x", p[:-1], "", p + "/"])
        ln = r.choice([len(b), len(b), 0])
        m = r.choice(["GET", "GET", "HEAD"])
        cases["old%d" % i] = (["OLD %s %s %d %s" % (p.encode().hex(), b.hex() or "-", ln, req(q, m))], [(m, q, b if p == q else None)], "old", None, "onion_handler_opack %r" % p)
    res = core.run_cases(ctx, binary, [(k, "\n".join(c[0])) for k, c in cases.items()], timeout=600)
    for k, (ls, plan, fn, v, what) in cases.items():
        out = res.get(k)
        if out is None:
            continue
        rep = what + "\n" + "\n".join(ls)
        if isinstance(out, core.Died):
            ctx.violation("died:" + out.key, what + "\n" + core.san_excerpt(out.err), rep)
            continue
        mimes = [bytes.fromhex(l[5:].strip()) for l in out if l.startswith("MIME ")]
        outs = [(out[i - 1], bytes.fromhex(l[4:].strip())) for i, l in enumerate(out) if l.startswith("OUT ")]
        lens = [int(l[4:]) for l in out if l.startswith("LEN ")]
        if lens and lens != [len(v)]:
            ctx.violation("length", "%s: %s_length is %d for %d bytes" % (what, fn, lens[0], len(v)), rep)
        if [l for l in out if l.startswith("BAL")] != ["BAL 0"]:
            ctx.violation("leak", "%s: serving left allocations: %s" % (what, out[-2:]), rep)
        mi = 0
        for (m, p, b), (st, buf) in zip(plan, outs):
            ctx.evals += 1
            try:
                o = httpresp.parse(buf, m, True)
            except httpresp.Bad as e:
                ctx.violation("bad-answer", "%s: %s %r: %s (%s)" % (what, m, p, e, st), rep)
                break
            ctx.distinct.add((k, m, p))
            if b is None:
                ctx.count("not_packed")
                if o.code != 404:
                    ctx.violation("served-other", "%s: %r is not packed, and answered %d with %r" % (what, p, o.code, o.body[:80]), rep)
                continue
            ctx.count("served")
            ctx.count("bytes", len(b))
            if o.code != 200:
                ctx.violation("not-served", "%s: %s %r (%d bytes) answered %d" % (what, m, p, len(b), o.code), rep)
                break
            if m == "GET" and (o.body != b or not o.complete or o.rest):
                ctx.violation("content", "%s: %r: %d bytes served of %d, %s" % (what, p, len(o.body), len(b), "different" if len(b) == len(o.body) else ""), rep)
            cl = [w for h, w in o.headers if h.lower() == b"content-length"]
            if fn != "old":
                if cl != [b"%d" % len(b)]:
                    ctx.violation("content-length", "%s: %s %r: content length %r for %d bytes" % (what, m, p, cl, len(b)), rep)
                ct = [w for h, w in o.headers if h.lower() == b"content-type"]
                want = mimes[mi if isinstance(v, dict) else 0]
                mi += 1
                if ct != [want]:
                    ctx.violation("type", "%s: %r: type %r, not %r" % (what, p, ct, want), rep)
            elif cl and m == "GET" and cl != [b"%d" % len(b)]:
                ctx.violation("content-length", "%s: %r: content length %r for %d bytes" % (what, p, cl, len(b)), rep)
            if int(st.split()[1]) >= 0:
                ctx.count("kept_alive")
            elif fn != "old":
                ctx.violation("closed", "%s: %s %r: connection closed after serving %d bytes (%s)" % (what, m, p, len(b), st), rep)
        ctx.sample({"pack": what, "requests": [(m, p, None if b is None else len(b)) for m, p, b in plan[:5]]})
    ctx.require(ctx.extra.get("served", 0) > n * 3 and ctx.extra.get("not_packed", 0) > n, "too little was served")
