"""Templates render their variables, loops and conditions, escaped."""
import hashlib, os, re
from .. import build, core, httpresp, toolslib

VARS = ["a", "b", "title", "user_name", "x1", "k", "v\u00e1r", "data", "item", "n0", "content-type", "very_long_variable_name_%s" % ("y" * 60)]
KEYS = ["a", "b", "c", "name", "k1", "k2", "z", "item", "01", "02", "10"]
VALUES = ["", "false", "true", "0", "text", "<b>bold</b>", "a & b", '"quoted"', "it's", "caf\u00e9 \u20ac", "%s%d%n", "{{ a }}", "{% if a %}", "a\\nb", "line1\nline2\ttab", "&amp;",
          "x" * 100, "y<" * 300, "<script>alert('x')</script>", "zz", "b", "a", "01", "\u00ff\u0101"]
LITS = ["a", "b", "text", "true", "01", "x y", "50%", "100 % sure", "%%", "", "caf\u00e9", "back\\slash", "{curly}", "#hash", "it's", "}"]


# ------------------------------------------------------------------ templates: lists of nodes

def text(r):
    x = r.random()
    if x < 0.35:
        s = r.choice(["<p>", "</p>\n", "Hello ", " world", "\n", "  ", "<a href=\"x\">", "\t", "\\", "\"", "'", "% }", "}}", "%}", "#}", "{ ", "{a", "{}", "}", "%", "#", "??/", "??)", "\\n", "\\\"", "%s %d", "/* c */", "// c\n",
                      "\"\"", "\r\n", "\x01\x02", "\x7f", "\x1b[0m", "\x0b\x0c", "\u20ac\u00e9", "\u00e91234567", "\u00ff0"])
    elif x < 0.85:
        s = "".join(r.choice("abc <>\"'\\/%#{}\n\t.-_&;:0129\u00e9\u4e2d") for _ in range(r.randrange(1, 60)))
    elif x < 0.97:
        s = "".join(r.choice("abcdef \n") for _ in range(r.choice([100, 1000, 3000])))
    else:
        s = r.choice("xy\"\\\u00e9") * r.choice([1000, 1023, 1024, 2040, 2048, 4070, 4080, 4095, 4096, 5000, 9000, 20000])
    return s


def clean(s):
    """no tag starts inside a text"""
    return re.sub(r"\{+(?=[{%#])", "", s)


class Gen:
    def __init__(self, r, name):
        self.r, self.name, self.loopvars = r, name, []

    def path(self, dictlike=False):
        r = self.r
        base = r.choice(self.loopvars) if self.loopvars and r.random() < 0.5 else r.choice(VARS)
        n = 1 if r.random() < 0.6 else r.choice([2, 2, 3, 4])
        return ".".join([base] + [r.choice(KEYS) for _ in range(n - 1)])

    def operand(self):
        r = self.r
        if r.random() < 0.35:
            return ("lit", r.choice(LITS))
        return ("var", self.path())

    def cond(self):
        r = self.r
        if r.random() < 0.4:
            return (self.operand(),)
        a = self.operand()
        b = a if r.random() < 0.15 else self.operand()
        return (a, r.choice(["==", "!=", "<", "<=", ">", ">="]), b)

    def nodes(self, depth, n=None):
        r, out = self.r, []
        for _ in range(n if n is not None else r.randrange(1, 6)):
            x = r.random()
            if x < 0.35 or depth <= 0 and x < 0.55:
                out.append(("text", text(r)))
            elif x < 0.60 or depth <= 0:
                out.append(("var", self.path()))
            elif x < 0.66:
                out.append(("comment", r.choice([" c ", "", "#", "##", " a } b ", " {{ a }} ", " {% if %} ", "%}", " x # y ", " # } ", "a##b"])))
            elif x < 0.80:
                out.append(("if", self.cond(), self.nodes(depth - 1), self.nodes(depth - 1) if r.random() < 0.5 else None))
            elif x < 0.93:
                p = self.path()
                v = r.choice(VARS[:6] + ["i", "j", "el"])
                self.loopvars.append(v)
                out.append(("for", v, p, self.nodes(depth - 1)))
                self.loopvars.pop()
            elif x < 0.96 and self.trans:
                out.append(("trans", r.choice(["Hello", "a \u00e9", "50% off", "it's", "back\\s", "<b>"])))
            elif self.includes:
                out.append(("include", r.choice(self.includes)))
            else:
                out.append(("text", text(r)))
        return out


def add_blocks(r, nodes, names, depth=0):
    """wraps some runs of nodes in blocks"""
    out = []
    for n in nodes:
        if n[0] == "if":
            n = ("if", n[1], add_blocks(r, n[2], names, depth + 1), n[3])
        elif n[0] == "for":
            n = ("for", n[1], n[2], add_blocks(r, n[3], names, depth + 1))
        if names and r.random() < (0.4 if depth == 0 else 0.2):
            b = names.pop()
            inner = [n]
            if r.random() < 0.3:
                inner = add_blocks(r, inner, names, depth + 1)
            out.append(("block", b, inner))
        else:
            out.append(n)
    return out


def blocks_of(nodes):
    out = {}
    for n in nodes:
        if n[0] == "block":
            out[n[1]] = n[2]
            out.update(blocks_of(n[2]))
        elif n[0] == "if":
            out.update(blocks_of(n[2]))
            if n[3]:
                out.update(blocks_of(n[3]))
        elif n[0] == "for":
            out.update(blocks_of(n[3]))
    return out


def family(r, i):
    """-> list of (file name, {"nodes", "extends", "trans"}), the last ones may include or extend the first ones"""
    out = []
    pre = r.choice(["p", "t-", "9"]) + str(i)

    def one(k, includes, ext=None, blocknames=()):
        g = Gen(r, k)
        g.trans = r.random() < 0.3
        g.includes = includes
        nodes = g.nodes(3, r.randrange(1, 9))
        if blocknames:
            nodes = add_blocks(r, nodes, list(blocknames))
        t = {"nodes": nodes, "extends": ext, "trans": g.trans, "name": "%s_%d.%s" % (pre, k, r.choice(["html", "tpl", "x-y.html"]))}
        return t
    leafs = [one(k, []) for k in range(r.randrange(0, 3))]
    out += leafs
    incs = [t["name"] for t in leafs]
    k = len(out)
    if r.random() < 0.6:
        names = ["bl%d_%d" % (i, j) for j in range(4)]
        base = one(k, incs, None, names)
        out.append(base)
        have = list(blocks_of(base["nodes"]))
        top = base
        for lvl in range(r.randrange(1, 3)):
            k += 1
            g = Gen(r, k)
            g.trans, g.includes = False, incs
            nodes = [("text", "ignored\n")] if r.random() < 0.5 else []
            for b in have:
                if r.random() < 0.6:
                    inner = g.nodes(2, r.randrange(0, 4))
                    if r.random() < 0.3:
                        inner = add_blocks(r, inner, ["n%d_%d_%d" % (i, k, len(nodes))])
                    nodes.append(("block", b, inner))
                    nodes.append(("text", r.choice([" ", "\n", "between"])))
            child = {"nodes": nodes, "extends": top["name"], "trans": False, "name": "%s_%d.html" % (pre, k)}
            out.append(child)
            have = sorted(set(have) | set(blocks_of(nodes)))
            top = child
        out.append(one(k + 1, [top["name"]] + incs))
    else:
        out.append(one(k, incs, None, ["bl%d" % i] if r.random() < 0.5 else ()))
    return out


def source(r, t):
    def sp():
        return r.choice([" ", " ", " ", "  ", "\t", "\n"]) if r.random() < 0.3 else " "

    def oper(o):
        return '"%s"' % o[1] if o[0] == "lit" else o[1]

    def tag(s):
        return "{%" + r.choice([" ", " ", "", "  "]) + s + r.choice([" ", " ", "  "]) + "%}"

    def ser(nodes):
        out = ""
        for n in nodes:
            if n[0] == "text":
                out += n[1]
            elif n[0] == "var":
                out += r.choice(["{{ %s }}", "{{%s}}", "{{  %s }}"]) % n[1]
            elif n[0] == "comment":
                out += "{#" + n[1] + "#}"
            elif n[0] == "if":
                c = n[1]
                out += tag("if" + sp() + oper(c[0]) + ((sp() + c[1] + sp() + oper(c[2])) if len(c) > 1 else ""))
                out += ser(n[2])
                if n[3] is not None:
                    out += tag("else") + ser(n[3])
                out += tag("endif")
            elif n[0] == "for":
                out += tag("for" + sp() + n[1] + sp() + "in" + sp() + n[2]) + ser(n[3]) + tag("endfor")
            elif n[0] == "include":
                out += tag("include" + sp() + '"%s"' % n[1])
            elif n[0] == "trans":
                out += tag('trans "%s"' % n[1])
            elif n[0] == "block":
                out += tag("block" + sp() + n[1]) + ser(n[2]) + tag(r.choice(["endblock", "endblock " + n[1]]))
        return out
    s = ""
    if t["extends"]:
        s += tag('extends "%s"' % t["extends"])
    if t["trans"]:
        s += tag("load i18n")
    return s + ser(t["nodes"])


def normal(nodes):
    """texts as they are written: no tag start inside, none made with what follows"""
    def fix(ns, last):
        out = []
        for k, n in enumerate(ns):
            if n[0] == "text":
                s = clean(n[1])
                nxt = ns[k + 1] if k + 1 < len(ns) else None
                if nxt is not None or not last:
                    while s.endswith("{"):
                        s = s[:-1]
                n = ("text", s)
            elif n[0] == "if":
                n = ("if", n[1], fix(n[2], False), None if n[3] is None else fix(n[3], False))
            elif n[0] == "for":
                n = ("for", n[1], n[2], fix(n[3], False))
            elif n[0] == "block":
                n = ("block", n[1], fix(n[2], False))
            out.append(n)
        return out
    return fix(nodes, True)


# ------------------------------------------------------------------ the reference renderer

ESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}


def esc(s):
    return "".join(ESC.get(c, c) for c in s)


def canon(b):
    for a, c in ((b"&#39;", b"&apos;"), (b"&#x27;", b"&apos;"), (b"&#34;", b"&quot;"), (b"&#x22;", b"&quot;"), (b"&#38;", b"&amp;"), (b"&#60;", b"&lt;"), (b"&#62;", b"&gt;")):
        b = b.replace(a, c)
    return b


def look(ctx, path):
    d = ctx
    for p in path.split("."):
        if not isinstance(d, dict) or p not in d:
            return None
        d = d[p]
    return d


def lookstr(ctx, path):
    v = look(ctx, path)
    return v if isinstance(v, str) else None


class TooBig(Exception):
    pass


def render(fam, name, ctx, blocks=None, budget=None):
    t = fam[name]
    budget = budget if budget is not None else [300000]
    if blocks is None:
        blocks = {}
    for b, n in blocks_of(t["nodes"]).items():
        blocks.setdefault(b, n)
    if t["extends"]:
        return render(fam, t["extends"], ctx, blocks, budget)

    def val(o, c):
        return o[1] if o[0] == "lit" else lookstr(c, o[1])

    def go(nodes, c):
        out = []
        for n in nodes:
            if n[0] == "text":
                out.append(n[1])
                budget[0] -= len(n[1])
            elif n[0] == "trans":
                out.append(n[1])
            elif n[0] == "var":
                v = lookstr(c, n[1])
                if v is not None:
                    out.append(esc(v))
                    budget[0] -= len(v)
            elif n[0] == "if":
                e = n[1]
                a = val(e[0], c)
                if len(e) == 1:
                    yes = a is not None and a != "false"
                else:
                    b = val(e[2], c)
                    if a is None or b is None:
                        same = a is None and b is None
                        yes = {"==": same, "<=": same, ">=": same, "!=": not same, "<": False, ">": False}[e[1]]
                    else:
                        x, y = a.encode(), b.encode()
                        yes = {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[e[1]]
                if yes:
                    out.append(go(n[2], c))
                elif n[3] is not None:
                    out.append(go(n[3], c))
            elif n[0] == "for":
                d = look(c, n[2])
                if isinstance(d, dict):
                    c2 = dict(c)
                    for k in sorted(d, key=lambda s: s.encode()):
                        c2[n[1]] = d[k]
                        out.append(go(n[3], c2))
            elif n[0] == "include":
                out.append(render(fam, n[1], c, blocks, budget))
            elif n[0] == "block":
                out.append(go(blocks[n[1]], c))
            if budget[0] < 0:
                raise TooBig()
        return "".join(out)
    return go(t["nodes"], ctx)


# ------------------------------------------------------------------ contexts

def paths_of(nodes, acc):
    """what the template asks for, so that contexts can have it"""
    for n in nodes:
        if n[0] == "var":
            acc.append(("s", n[1]))
        elif n[0] == "if":
            for o in n[1]:
                if isinstance(o, tuple) and o[0] == "var":
                    acc.append(("s", o[1]))
            paths_of(n[2], acc)
            paths_of(n[3] or [], acc)
        elif n[0] == "for":
            acc.append(("d", n[2], n[1], [x for x in subkeys(n[3], n[1])]))
            paths_of(n[3], acc)
        elif n[0] == "block":
            paths_of(n[2], acc)
    return acc


def subkeys(nodes, var):
    acc = []
    for p in paths_of(nodes, []):
        if p[1].startswith(var + "."):
            acc.append(p[1][len(var) + 1:])
    return acc


def put(d, path, v):
    ps = path.split(".")
    for p in ps[:-1]:
        if not isinstance(d.get(p), dict):
            d[p] = {}
        d = d[p]
    d[ps[-1]] = v


def context(r, fam):
    ctx = {}
    asks = []
    for t in fam.values():
        paths_of(t["nodes"], asks)
    r.shuffle(asks)
    for a in asks:
        if r.random() < 0.2:
            continue
        if a[0] == "s":
            if not isinstance(look(ctx, a[1]), dict) or r.random() < 0.1:
                put(ctx, a[1], r.choice(VALUES))
        else:
            d = {}
            for k in r.sample(KEYS, r.choice([0, 1, 2, 3, 5])):
                if a[3] and r.random() < 0.7:
                    e = {}
                    for s in a[3]:
                        if r.random() < 0.8:
                            put(e, s, r.choice(VALUES))
                    d[k] = e
                else:
                    d[k] = r.choice(VALUES)
            put(ctx, a[1], d)
    return ctx


def ctx_lines(d, pre=()):
    out = []
    for k, v in d.items():
        p = pre + (k.encode().hex(),)
        if isinstance(v, dict):
            out.append("E %s" % ".".join(p))
            out += ctx_lines(v, p)
        else:
            out.append("V %s %s" % (".".join(p), v.encode().hex()))
    return out


def cname(f):
    s = f.replace(".", "_").replace("-", "_")
    return "_" + s if s[0].isdigit() else s


# ------------------------------------------------------------------ hostile templates

def mutate(r, s):
    s = bytearray(s)
    for _ in range(r.randrange(1, 6)):
        x = r.random()
        if not s or x < 0.2:
            k = r.randrange(0, len(s) + 1)
            s[k:k] = r.choice([b"{%", b"%}", b"{{", b"}}", b"{#", b"#}", b"{% endif %}", b"{% endfor %}", b"{% endblock %}", b"{% else %}", b"{% for %}", b"{% for x %}", b"{% for x in %}", b"{% if %}", b"{% block %}",
                               b"{% include %}", b"{% extends %}", b"{% load %}", b"{% load nosuch %}", b"{% nosuch %}", b"{% %}", b"{%%}", b"{{}}", b"{{ . }}", b"{{ .. }}", b"{{a.}}", b"\"", b"\0", b"\xff", b"%", b"}", b"{",
                               b"{% trans %}", b"{% if a == %}", b"{% if a = b %}", b"{% if a == b c %}", b"{% for a in b c d %}", b"{% block " + b"x" * r.choice([10, 300, 5000]) + b" %}", b"{{" + b"v" * r.choice([300, 5000]) + b"}}",
                               b"{% include \"" + b"y" * r.choice([100, 500, 520, 6000]) + b"\" %}", b"{% for " + b"z" * 5000 + b" in a %}", b"{% if \"unfinished %}", b"{% extends %}"])
        elif x < 0.5:
            a = r.randrange(len(s))
            del s[a:a + r.choice([1, 1, 2, 5, 20])]
        elif x < 0.7:
            s[r.randrange(len(s))] = r.choice(b"{}%#\"' .\n\0\xff\\")
        elif x < 0.85:
            a = r.randrange(len(s))
            b = min(len(s), a + r.randrange(1, 60))
            k = r.randrange(len(s))
            s[k:k] = s[a:b]
        else:
            s = s[:r.randrange(len(s) + 1)]
    return bytes(s)


# what the compiler cannot make sense of, and has to say so
WRONG = ["{% if a = b %}x{% endif %}", "{% if a === b %}x{% endif %}", "{% if a in b %}x{% endif %}", "{% if a <> b %}x{% endif %}", "{% if a %}x", "{% if a %}x{% else %}y", "{% for x in a %}y", "{% block b %}y", "{% nosuch %}",
         "{% if %}x{% endif %}", "{% if a == b c %}x{% endif %}", "{% if a == %}x{% endif %}", "{% for x %}y{% endfor %}", "{% for %}y{% endfor %}", "{% for x in %}y{% endfor %}", "{% include %}", "{% extends %}",
         "{% block %}x{% endblock %}", "{% endif %}", "{% endfor %}", "{% endblock %}", "{% else %}", "{{ a", "{% if a", "{# c", "{{ a }", "{% if a %", "{% load nosuch %}"]


def wrong(ctx, otemplate, d):
    r = ctx.rng
    f = os.path.join(d, "wrong.html")
    for w in WRONG:
        for _ in range(ctx.n(2, 10)):
            s = clean(text(r)) + w + " " + clean(text(r)).replace("%}", "").replace("}}", "").replace("#}", "")
            with open(f, "wb") as o:
                o.write(s.encode())
            rc, o, err = core.run_tool([otemplate, f, f + ".c", "-a", f + ".h", "-t", d], 20, cwd=d)
            ctx.evals += 1
            ctx.count("wrong_templates")
            if toolslib.crashed(rc, err):
                ctx.violation("hostile:" + ("hang" if rc is None else core.san_key(err)), "otemplate crashed: rc %s\n%s" % (rc, core.san_excerpt(err)), s)
            elif rc == 0:
                ctx.violation("accepted", "a template with %r was compiled without error" % w, s)


def old_assets(ctx, otemplate, d):
    """assets headers that exist: what they had stays, what is new is there once"""
    r = ctx.rng
    f = os.path.join(d, "olda.html")
    with open(f, "w") as o:
        o.write("hello")
    decl = re.compile(r"^void olda_html\(.*;", re.M)
    h = os.path.join(d, "old_assets.h")
    for i in range(ctx.n(30, 300)):
        if os.path.exists(h):
            os.unlink(h)
        kind = i % 3
        if kind == 0:                          # somebody's header, without our mark
            lines = ["/* header %d */" % i, "#include <onion/types.h>"] + ["int f%d(int a%d);" % (k, k) for k in range(r.choice([0, 1, 5, 13, 14, 15, 30, 70]))]
        else:                                  # ours, with other templates already there
            g = os.path.join(d, "oldb.html")
            for k in range(r.choice([1, 2, 12, 17])):
                g = os.path.join(d, "oldb%d.html" % k)
                with open(g, "w") as o:
                    o.write("x")
                core.run_tool([otemplate, g, g + ".c", "-a", h, "-t", d], 20, cwd=d)
            with open(h) as o:
                lines = o.read().splitlines()
        with open(h, "w") as o:
            o.write("\n".join(lines) + ("\n" if r.random() < 0.5 else ""))
        before = "\n".join(lines)
        rc, _, err = core.run_tool([otemplate, f, f + ".c", "-a", h, "-t", d], 20, cwd=d)
        ctx.evals += 1
        with open(h) as o:
            t = o.read()
        n = len(re.findall(r"\bolda_html\(", t))
        kept = [l for l in t.splitlines() if "olda_html" not in l]
        if toolslib.crashed(rc, err) or rc != 0:
            ctx.violation("assets", "compiling with an existing assets header failed: rc %s\n%s" % (rc, core.san_excerpt(err)), before)
        elif n != 1 or kept != lines:
            ctx.violation("assets", "the header\n%s\nbecame\n%s" % (before[-800:], t[-800:]), before)
        core.run_tool([otemplate, f, f + ".c", "-a", h, "-t", d], 20, cwd=d)
        with open(h) as o:
            if o.read() != t:
                ctx.violation("assets", "compiling again changed\n%s" % t[-800:], before)
        ctx.count("existing_assets_headers")


def run(ctx):
    r = ctx.rng
    otemplate = toolslib.tool("otemplate")
    d = os.path.join(ctx.scratch, "t")
    os.makedirs(d)
    toolslib.plugin("i18n", d)
    assets = os.path.join(d, "assets.h")
    nfam = ctx.n(56, 500)
    fams, every, pairs = [], [], []
    for i in range(nfam):
        fam = family(r, i)
        fm = {}
        for t in fam:
            t["nodes"] = normal(t["nodes"])
            t["src"] = source(r, t)
            fm[t["name"]] = t
        fams.append(fm)
        every += fam

    # compile them: templates to C one by one (they share the assets header), then C to objects
    ctx.rule = "a template of a family rendered with a context and compared, byte by byte, with the reference renderer"
    for t in every:
        f = os.path.join(d, t["name"])
        with open(f, "wb") as o:
            o.write(t["src"].encode())
        t["c"] = os.path.join(d, cname(t["name"]) + ".c")
        args = ["-n"] if r.random() < 0.3 else []
        rc, o, err = core.run_tool([otemplate, f, t["c"], "-a", assets, "-t", d] + args, 30, cwd=d)
        ctx.count("templates_compiled")
        if toolslib.crashed(rc, err):
            ctx.violation("compiler:" + core.san_key(err), "otemplate crashed on a correct template\n" + core.san_excerpt(err), t["src"])
        elif rc != 0:
            ctx.violation("rejected", "a correct template was rejected: %s" % err[-800:], t["src"])
        elif not os.path.exists(t["c"]):
            ctx.violation("no-output", "otemplate says it compiled, but there is no output", t["src"])
    if ctx.violations:
        return
    objs = [(t["c"], t["c"] + ".o") for t in every]
    for t, e in zip(every, toolslib.compile_many(objs)):
        if e:
            ctx.violation("does-not-compile", "the code of an accepted template does not compile: %s" % e[:1500], t["src"])
    if ctx.violations:
        return

    # the assets header: each one once, and stable
    def decls():
        with open(assets) as f:
            return f.read()
    h1 = decls()
    for t in every:
        k = len(re.findall(r"\bvoid\s+%s\s*\(" % re.escape(cname(t["name"])), h1))
        if k != 1:
            ctx.violation("assets", "%s is declared %d times in the assets header (%d bytes)" % (cname(t["name"]), k, len(h1)), h1)
            return
    ctx.count("assets_bytes", len(h1))
    for t in r.sample(every, min(12, len(every))):
        core.run_tool([otemplate, os.path.join(d, t["name"]), t["c"] + ".again", "-a", assets, "-t", d], 30, cwd=d)
    if decls() != h1:
        ctx.violation("assets", "compiling again changed the assets header from\n%s\nto\n%s" % (h1[-1500:], decls()[-1500:]), h1)
        return

    tab = os.path.join(d, "tmpl_table.c")
    with open(tab, "w") as f:
        f.write('#include "%s"\n#include "tmpl.h"\n' % assets)
        for t in every:
            c = cname(t["name"])
            f.write("onion_handler *%s_handler(onion_dict *);\nonion_connection_status %s_template(onion_dict *, onion_request *, onion_response *);\n" % (c, c))
        f.write("const struct tmpl tmpls[] = {\n" + "".join('{"%s", %s, %s_handler, %s_template},\n' % (cname(t["name"]),) * 1 if False else
                '{"%s", %s, %s_handler, %s_template},\n' % ((cname(t["name"]),) * 4) for t in every) + "};\nconst int tmpl_count = %d;\n" % len(every))
    e = toolslib.compile_c(tab, tab + ".o")
    if e:
        ctx.violation("assets", "the assets header does not compile: %s" % e[:1500], h1)
        return
    drv = build.compile_obj(os.path.join(build.VERIF, "harness", "tmpl.c"), "asan")
    binary = os.path.join(d, "render")
    build._run(["clang"] + [f for f in build.FLAVORS["asan"] if f.startswith("-f")] + [drv, tab + ".o"] + [o for _, o in objs] + build.lib_objs("asan") + build.LIBS + ["-o", binary])

    cases = {}
    for i, fm in enumerate(fams):
        for j in range(ctx.n(25, 40)):
            c = context(r, fm) if r.random() < 0.95 else {}
            name = r.choice(list(fm))
            mode = r.choice(["fn", "fn", "handler", "template", "null"])
            try:
                want = render(fm, name, {} if mode == "null" else c)
            except TooBig:
                continue
            cases["f%d.%d" % (i, j)] = (fm, name, mode, c, want)
    res = core.run_cases(ctx, binary, [(k, "\n".join(ctx_lines(c[3])) + "\nRENDER %s %s" % (cname(c[1]), c[2])) for k, c in cases.items()], timeout=600)
    for k, (fm, name, mode, c, want) in cases.items():
        out = res.get(k)
        if out is None:
            continue
        ctx.evals += 1
        ctx.distinct.add(hashlib.md5((name + want).encode()).hexdigest())
        rep = "mode %s template %s\ncontext %r\n\n" % (mode, name, c) + "\n\n".join("=== %s\n%s" % (t["name"], t["src"]) for t in fm.values())
        if isinstance(out, core.Died):
            ctx.violation("died:" + out.key, core.san_excerpt(out.err), rep)
            continue
        outs = [bytes.fromhex(l[4:].strip()) for l in out if l.startswith("OUT ")]
        bal = [l for l in out if l.startswith("BAL ")]
        for o in outs:
            try:
                p = httpresp.parse(o, "GET", True)
            except httpresp.Bad as e:
                ctx.violation("bad-answer", "%s: %s" % (k, e), rep)
                break
            w = want.encode()
            if canon(p.body) != canon(w):
                a, b = canon(p.body), canon(w)
                z = next((q for q in range(min(len(a), len(b))) if a[q] != b[q]), min(len(a), len(b)))
                ctx.violation("render", "%s (%s): at byte %d of %d: got %r, expected %r" % (name, mode, z, len(b), a[max(0, z - 60):z + 80], b[max(0, z - 60):z + 80]), rep)
                break
            ctx.count("renders")
            ctx.count("bytes", len(w))
        if bal != ["BAL 0"]:
            ctx.violation("leak", "rendering left %s allocations" % bal, rep)
        ctx.sample({"template": fm[name]["src"][:200], "out": want[:200]})
    for fm in fams:
        for t in fm.values():
            for x in ("if", "for", "block", "include", "trans", "comment"):
                if "{% " + x in t["src"] or x == "comment" and "{#" in t["src"]:
                    ctx.count("templates_with_" + x)

    # hostile templates: never a crash of the compiler
    nh = ctx.n(700, 12000)
    jobs = []
    for i in range(nh):
        base = r.choice(every)["src"].encode()
        if r.random() < 0.5:
            a = r.randrange(len(base) + 1)
            base = base[a:a + r.randrange(1, 400)]
        jobs.append((i, mutate(r, base), r.random() < 0.3))

    def hostile(j):
        i, s, n = j
        f = os.path.join(d, "h%d.html" % i)
        with open(f, "wb") as o:
            o.write(s)
        rc, o, err = core.run_tool([otemplate, f, f + ".c", "-a", f + ".h", "-t", d] + (["-n"] if n else []), 20, cwd=d)
        okout = os.path.exists(f + ".c")
        for x in (f, f + ".c", f + ".h"):
            if os.path.exists(x):
                os.unlink(x)
        return rc, err, okout
    with toolslib.ThreadPoolExecutor(core.NPROC) as ex:
        for j, (rc, err, okout) in zip(jobs, ex.map(hostile, jobs)):
            ctx.evals += 1
            ctx.distinct.add(hashlib.md5(j[1]).hexdigest())
            ctx.count("hostile_accepted" if rc == 0 else "hostile_rejected")
            if toolslib.crashed(rc, err):
                ctx.violation("hostile:" + ("hang" if rc is None else core.san_key(err)), "otemplate crashed: rc %s\n%s" % (rc, core.san_excerpt(err)), repr(j[1]))
            elif rc == 0 and not okout:
                ctx.violation("no-output", "otemplate says it compiled, but there is no output", repr(j[1]))
    # and it says so when it cannot do its work
    wrong(ctx, otemplate, d)
    old_assets(ctx, otemplate, d)
    rc, o, err = core.run_tool([otemplate, os.path.join(d, "nosuch.html"), os.path.join(d, "nosuch.c"), "-a", assets], 20, cwd=d)
    if rc == 0:
        ctx.violation("no-input", "a template that does not exist was compiled without error")
    ctx.require(ctx.extra.get("renders", 0) > nfam * 10, "too few renders")
