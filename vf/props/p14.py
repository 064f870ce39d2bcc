"""A dictionary behaves as an ordered map (stable for duplicated keys) for every history."""
import hashlib
from .. import core, build, srvlib

FK, FV, DUPK, DUPV, REPL = 2, 4, 0x12, 0x24, 0x40


class D:
    """reference: list of [key, value] sorted by (folded) key, insertion order among equals"""
    def __init__(self):
        self.e = []
        self.icase = False
        self.repl = set()      # keys ever stored with OD_REPLACE (a merge hands the flag on)

    def k(self, key):
        return bytes(c + 32 if 65 <= c <= 90 else c for c in key) if self.icase else key

    def add(self, key, val):
        f = self.k(key)
        i = len(self.e)
        while i > 0 and self.k(self.e[i - 1][0]) > f:
            i -= 1
        self.e.insert(i, [key, val])

    def idx(self, key):
        f = self.k(key)
        return [i for i, x in enumerate(self.e) if self.k(x[0]) == f]

    def flat(self, depth=0):
        out = []
        for k, v in self.e:
            if isinstance(v, D):
                out.append((depth, k, "D"))
                out += v.flat(depth + 1)
            else:
                out.append((depth, k, v))
        return out

    def copy(self):
        n = D()
        n.icase = self.icase
        n.repl = set(self.repl)
        n.e = [[k, v.copy() if isinstance(v, D) else v] for k, v in self.e]
        return n


class Hist:
    def __init__(self, r, big=False):
        self.r, self.ops, self.exp = r, [], []
        self.s = {}                # slot -> D
        self.pinned = {}           # slots lent (not owned) as values: freed at the end only
        self.big = big
        self.dups = False

    def slot(self):
        for i in range(16):
            if i not in self.s:
                return i
        return None

    def new(self):
        i = self.slot()
        if i is None:
            return
        self.ops.append("new %d" % i)
        self.s[i] = D()
        if self.r.random() < 0.3:
            self.ops.append("icase %d" % i)
            self.s[i].icase = True

    def key(self, i=None):
        r = self.r
        if i is not None and self.s[i].e and r.random() < 0.4:
            k = r.choice(self.s[i].e)[0]
            return k.swapcase() if r.random() < 0.15 else k
        if self.big:
            return b"%d" % r.randrange(400)
        return r.choice([b"a", b"b", b"c", b"d", b"A", b"B", b"ab", b"aB", b"", b"\xff", b"z%d" % r.randrange(12),
                         b"k%d" % r.randrange(40), bytes(r.randrange(1, 256) for _ in range(r.randrange(1, 6))), b"_", b"[", b"long" * 50])

    def dump(self, i):
        self.ops.append("dump %d" % i)
        self.exp.append(("dump", [self.s[i].flat()], len(self.s[i].e)))

    def reach(self, a, b):
        """is b reachable from a (or a itself)"""
        if a is b:
            return True
        return any(isinstance(v, D) and self.reach(v, b) for _, v in a.e)

    def total(self, d):
        return len(d.e) + sum(self.total(v) for _, v in d.e if isinstance(v, D))

    def step(self):
        r = self.r
        if not self.s or (len(self.s) < 10 and r.random() < 0.06):
            self.new()
            return
        i = r.choice(list(self.s))
        d = self.s[i]
        o = r.random()
        if o < 0.42:
            k = self.key(i)
            v = bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 5, 20])))
            fl = r.choice([DUPK | DUPV] * 4 + [0, FK, FV, FK | FV, DUPK, DUPV, DUPK | FV, FK | DUPV])
            repl = r.random() < 0.5
            dd = d.idx(k)
            if repl:
                d.repl.add(d.k(k))
            if not repl and dd and r.random() < 0.3:
                repl = True
                d.repl.add(d.k(k))
            self.ops.append("add %d %s %s %d" % (i, k.hex() or ".", v.hex() or ".", fl | (REPL if repl else 0)))
            if repl and dd:
                self.alt(i, [("set", x, [k, v]) for x in dd])
            else:
                d.add(k, v)
                if dd:
                    self.dups = True
        elif o < 0.5 and len(self.s) > 1:
            j = r.choice(list(self.s))
            sub = self.s[j]
            if j == i or self.reach(sub, d) or self.total(sub) > 40 or self.total(d) > 150 or j in self.pinned:
                return
            k = self.key(i)
            mode = r.choice(["dup", "own", "ref", "lend"])
            if d.idx(k):
                return
            if mode == "dup":
                self.ops.append("addd %d %s %d %d" % (i, k.hex() or ".", j, DUPV))
                d.add(k, sub.copy())
            elif mode == "own":
                self.ops.append("addd %d %s %d %d" % (i, k.hex() or ".", j, FV))
                d.add(k, sub)
                del self.s[j]
            elif mode == "ref":
                t = self.slot()
                if t is None:
                    return
                self.ops.append("dup %d %d" % (j, t))
                self.ops.append("addd %d %s %d %d" % (i, k.hex() or ".", t, FV))
                d.add(k, sub)
            else:
                self.ops.append("addd %d %s %d 0" % (i, k.hex() or ".", j))
                d.add(k, sub)
                self.pinned[j] = 1
        elif o < 0.66:
            k = self.key(i)
            dd = d.idx(k)
            self.ops.append("rm %d %s" % (i, k.hex() or "."))
            self.exp.append(("rm", ["1"] if dd else ["0"]))
            if dd:
                self.alt(i, [("del", x, None) for x in dd])
        elif o < 0.78:
            k = self.key(i)
            self.ops.append("get %d %s" % (i, k.hex() or "."))
            vals = [d.e[x][1] for x in d.idx(k)]
            self.exp.append(("get", ["NULL" if isinstance(v, D) else v.hex() for v in vals] or ["NULL"]))
        elif o < 0.82:
            k = self.key(i)
            dd = d.idx(k)
            if len(dd) <= 1:
                self.ops.append("getd %d %s" % (i, k.hex() or "."))
                if dd and isinstance(d.e[dd[0]][1], D):
                    self.exp.append(("getd", ["1"]))
                    x = d.e[dd[0]][1]
                    self.exp.append(("dump", [x.flat()], len(x.e)))
                else:
                    self.exp.append(("getd", ["0"]))
        elif o < 0.86:
            cur, path, ok = d, [], True
            for _ in range(r.randrange(1, 4)):
                k = r.choice(cur.e)[0] if cur.e and r.random() < 0.85 else self.key()
                path.append(k)
                dd = cur.idx(k)
                if len(dd) > 1:
                    return
                cur = cur.e[dd[0]][1] if dd else None
                if not isinstance(cur, D):
                    if r.random() < 0.4:        # a path that goes on below nothing, or below a value
                        for _ in range(r.randrange(1, 3)):
                            path.append(r.choice(d.e)[0] if d.e and r.random() < 0.7 else self.key())
                        cur = None
                    break
            del path[4:]
            if not all(path):
                return
            self.ops.append("rget %d %s" % (i, " ".join(x.hex() for x in path)))
            self.exp.append(("rget", ["NULL" if cur is None or isinstance(cur, D) else cur.hex()]))
            self.exp.append(("rgetd", [str(len(cur.e)) if isinstance(cur, D) else "-1"]))
        elif o < 0.9:
            j = self.slot()
            if j is None:
                return
            if r.random() < 0.5:
                self.ops.append("dup %d %d" % (i, j))
                self.s[j] = d
            else:
                self.ops.append("hdup %d %d" % (i, j))
                self.s[j] = d.copy()
        elif o < 0.93 and len(self.s) > 1:
            j = r.choice(list(self.s))
            src = self.s[j]
            if src is d or self.reach(src, d) or self.reach(d, src) or self.total(d) + self.total(src) > 150 or any(d.idx(k) for k, _ in src.e) or \
                    (d.icase and not src.icase) or any(len(src.idx(k)) > 1 and src.k(k) in src.repl for k, _ in src.e):
                return
            self.ops.append("merge %d %d" % (i, j))
            for k, v in src.e:
                d.add(k, v.copy() if isinstance(v, D) else v)
            d.repl |= {d.k(k) for k in src.repl}
            if any(len(d.idx(k)) > 1 for k, _ in src.e):
                self.dups = True
        elif o < 0.96:
            if i not in self.pinned:
                self.ops.append("free %d" % i)
                del self.s[i]
                return
        else:
            self.ops.append("cnt %d" % i)
            self.exp.append(("cnt", [str(len(d.e))]))
        if r.random() < (0.05 if self.big else 0.5) and i in self.s:
            self.dump(i)

    def alt(self, i, choices):
        """an operation that may act on any of several equal keys; the following dump tells which"""
        d = self.s[i]
        if len(choices) == 1:
            self.apply(d, choices[0])
            return
        # ambiguous only if outcomes differ
        outs, seen = [], []
        for c in choices:
            x = D()
            x.icase = d.icase
            x.e = [list(y) for y in d.e]
            self.apply(x, c)
            fl = x.flat()
            if fl not in seen:
                seen.append(fl)
                outs.append(c)
        self.ops.append("dump %d" % i)
        if len(outs) == 1:
            self.apply(d, outs[0])
            self.exp.append(("dump", [d.flat()], len(d.e)))
        else:
            raise Ambiguous()

    def apply(self, d, c):
        if c[0] == "del":
            del d.e[c[1]]
        else:
            d.e[c[1]] = c[2]

    def finish(self):
        for i in sorted(self.s):
            self.dump(i)
        # parents before the dictionaries lent to them
        for i in sorted(self.s, key=lambda x: x in self.pinned):
            if i not in self.pinned:
                self.ops.append("free %d" % i)
        left = [i for i in self.pinned]
        # a lent one may itself hold a lent one: free the ones nobody holds first
        while left:
            for i in left:
                if not any(self.reach(self.s[j], self.s[i]) for j in left if j != i and self.s[j] is not self.s[i]):
                    self.ops.append("free %d" % i)
                    left.remove(i)
                    break
            else:
                self.ops += ["free %d" % i for i in left]
                left = []


class Ambiguous(Exception):
    pass


def parse(lines):
    out, cur = [], None
    for l in lines:
        f = l.split(" ")
        if f[0] == "dump":
            cur = ("dump", [], int(f[1]))
        elif f[0] == "enddump":
            out.append(cur)
            cur = None
        elif f[0] == "e" and cur:
            cur[1].append((int(f[1]), bytes.fromhex(f[2]), "D" if f[3] == "D" else bytes.fromhex(f[3][1:])))
        elif f[0] in ("rm", "get", "getd", "rget", "rgetd", "cnt"):
            out.append((f[0], f[1] if len(f) > 1 else ""))
    return out


def checkcase(ctx, lines, exp, rep):
    got = parse(lines)
    for n, e in enumerate(exp):
        if n >= len(got):
            ctx.violation("missing", "observation %d missing" % n, rep)
            return
        g = got[n]
        ctx.count("observations")
        if e[0] != g[0]:
            ctx.violation("desync", "%s vs %s" % (e, g), rep)
            return
        if e[0] == "dump":
            if g[2] != e[2]:
                ctx.violation("count", "count says %d, the map has %d entries" % (g[2], e[2]), rep)
                return
            if g[1] not in e[1]:
                ctx.violation("content", "traversal gives %s, ordered map has %s" % (str(g[1])[:400], str(e[1][0])[:400]), rep)
                return
        elif g[1] not in e[1]:
            ctx.violation("result:" + e[0], "%s returned %s, ordered map gives %s" % (e[0], g[1], e[1]), rep)
            return


def run(ctx):
    b = build.harness("lib")
    r = ctx.rng
    ctx.rule = ("histories of up to 120 operations (add with every ownership flag, replace, remove, get, nested get, duplicate, deep copy, merge, nest, free) on up to 16 "
                "dictionaries, repeated keys and case folding included, plus long histories of up to 1500 operations on few large ones; every result and full traversals are "
                "compared with an ordered-map model, lent memory is verified untouched and the heap balance checked; non-trivial = distinct history with a removal or replacement")
    cases, meta = [], {}
    want = ctx.n(6000, 80000)
    i = 0
    while i < want:
        h = Hist(r, big=(i % 40 == 7))
        n = r.randrange(5, 120) if not h.big else r.randrange(300, 1500)
        amb = []
        for _ in range(n):
            save = (len(h.ops), len(h.exp))
            try:
                h.step()
            except Ambiguous:
                # which of several equal keys is hit is not specified: drop this step
                del h.ops[save[0]:]
                del h.exp[save[1]:]
        h.finish()
        cases.append((str(i), "\n".join(h.ops)))
        meta[str(i)] = (h.exp, h.dups)
        i += 1
    cases += dupcases(ctx, r, meta)
    texts = dict(cases)
    live = srvlib.die_report(ctx, core.run_cases(ctx, b, cases, timeout=400), cases)
    for cid, lines in live.items():
        ctx.evals += 1
        rep = "CASE %s\n%s\nEND\n" % (cid, texts[cid])
        if cid.startswith("m"):
            checkmulti(ctx, lines, meta[cid], rep)
        else:
            checkcase(ctx, lines, meta[cid][0], rep)
        if "TOUCHED" in lines:
            ctx.violation("touched", "memory lent to the dictionary was modified", rep)
        if "RES allocs=0" not in lines:
            ctx.violation("leak", "memory owned by the dictionaries is not released: %s" % lines[-2:], rep)
        if "rm " in texts[cid] or cid.startswith("m"):
            ctx.distinct.add(hashlib.md5(texts[cid].encode()).digest())
    ctx.sample(texts["0"][:400])
    ctx.require(ctx.extra.get("observations", 0) > 20000 and ctx.extra.get("multi_steps", 0) > 2000, "too few observations")
    ctx.assumptions = ["which of several entries with equal keys a lookup, replacement or removal acts on is not specified"]


def dupcases(ctx, r, meta):
    """histories heavy in repeated keys; every step dumped, judged step by step from the previous dump"""
    out = []
    for i in range(ctx.n(1500, 20000)):
        ops = ["new 0"]
        steps = []
        icase = r.random() < 0.3
        if icase:
            ops.append("icase 0")
        nk = r.randrange(1, 6)
        for q in range(r.randrange(5, 60)):
            k = b"k%d" % r.randrange(nk)
            if icase and r.random() < 0.5:
                k = k.upper()
            v = b"v%d" % q
            o = r.random()
            fl = r.choice([DUPK | DUPV, DUPK | DUPV, FK | FV, DUPK | FV])
            if o < 0.55:
                ops.append("add 0 %s %s %d" % (k.hex(), v.hex(), fl))
                steps.append(("add", k, v))
            elif o < 0.65:
                ops.append("add 0 %s %s %d" % (k.hex(), v.hex(), fl | REPL))
                steps.append(("repl", k, v))
            else:
                ops.append("rm 0 %s" % k.hex())
                steps.append(("rm", k, None))
            ops.append("dump 0")
        ops.append("free 0")
        out.append(("m%d" % i, "\n".join(ops)))
        meta["m%d" % i] = (icase, steps)
    return out


def checkmulti(ctx, lines, m, rep):
    icase, steps = m
    got = parse(lines)
    cur = D()
    cur.icase = icase
    gi = 0
    for n, (o, k, v) in enumerate(steps):
        dd = cur.idx(k)
        if o == "rm":
            if got[gi] != ("rm", "1" if dd else "0"):
                ctx.violation("result:rm", "step %d: remove returned %s with %d entries of that key" % (n, got[gi], len(dd)), rep)
                return
            gi += 1
        alts = []
        if o == "add" or (o == "repl" and not dd):
            x = cur.copy()
            x.add(k, v)
            alts = [x]
        elif o == "repl":
            for p in dd:
                x = cur.copy()
                x.e[p] = [k, v]
                alts.append(x)
        elif dd:
            for p in dd:
                x = cur.copy()
                del x.e[p]
                alts.append(x)
        else:
            alts = [cur]
        g = got[gi]
        gi += 1
        ctx.count("multi_steps")
        nxt = [x for x in alts if x.flat() == g[1] and len(x.e) == g[2]]
        if not nxt:
            ctx.violation("duplicates:" + o, "step %d (%s %r): the map is %s (count %d), expected one of %s" % (n, o, k, [(a[1], a[2]) for a in g[1]], g[2], [x.e for x in alts][:3]), rep)
            return
        cur = nxt[0]
