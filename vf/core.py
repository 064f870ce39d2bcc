"""Verdicts, evidence, known findings and sharded execution of the drivers."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import build

VERIF = build.VERIF
EVID = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=1:max_allocation_size_mb=2048:handle_abort=1:quarantine_size_mb=64:"
                    "strict_string_checks=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:report_signal_unsafe=0",
    "GLIBC_TUNABLES": "glibc.pthread.stack_cache_size=0",     # heap balance: no cached thread blocks
    "TZ": "UTC", "LC_ALL": "C",
}
NPROC = min(8, os.cpu_count() or 4)


class HarnessError(Exception):
    """The check itself could not do its work (never a verdict)."""


def hx(b):
    return b.hex()


class Ctx:
    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.rng = random.Random("%s/%s/%d" % (prop, "x", seed))
        self.t0 = time.time()
        self.violations = {}      # key -> (detail, replay path)
        self.known_hits = {}
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.rule = ""
        self.extra = {}
        self.assumptions = []
        self.known = load_known(prop)
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.quick = tier == "quick"

    def n(self, quick, thorough):
        f = float(os.environ.get("VF_SCALE", "1"))
        return max(1, int((quick if self.quick else thorough) * f))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s if len(str(s)) < 600 else str(s)[:600] + "...")

    def count(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    def violation(self, key, detail, replay=""):
        for k in self.known:
            if re.search(k["key"], key):
                self.known_hits[k["key"]] = k["what"]
                return
        if key in self.violations:
            return
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.txt" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            f.write("# property %s\n# key %s\n# seed %d tier %s\n# %s\n" %
                    (self.prop, key, self.seed, self.tier, str(detail).replace("\n", "\n# ")))
            f.write(replay if isinstance(replay, str) else json.dumps(replay, indent=1))
        self.violations[key] = (detail, path)

    def require(self, cond, what):
        """A workload that observed nothing is an error of the check, not a pass."""
        if not cond and not self.violations:
            raise HarnessError("inconclusive: " + what)

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(EVID, exist_ok=True)
        cov = {"evaluations": int(self.evals), "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, w in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        for k, (d, p) in self.violations.items():
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  key: %s\n  %s" % (k, str(d)[:2000]))
        print("%s %s: %d evaluations, %d distinct, %d violations, %.1fs" %
              (self.prop, self.tier, self.evals, len(self.distinct), len(self.violations), time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def children():
    """processes started by this one"""
    me, out = str(os.getpid()), []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    if f.read().rsplit(")", 1)[1].split()[1] == me:
                        out.append(int(d))
            except (OSError, IndexError):
                pass
    return out


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out


# ---------------------------------------------------------------- sanitizer reports

def san_key(err):
    """(kind, function) of a sanitizer report, with lines and addresses stripped."""
    kind = "crash"
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    if m:
        kind = m.group(2)
    else:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
        else:
            m = re.search(r"Assertion `(.*?)' failed", err)
            if m:
                kind = "assert:" + m.group(1)[:60]
    fn = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err):
        f, where = m.group(1), m.group(2)
        if "/src/onion/" in where or "/tools/" in where or "/bindings/" in where:
            fn = f
            break
    return "%s@%s" % (kind.replace(" ", "_"), fn)


def san_excerpt(err, n=40):
    lines = err.splitlines()
    for i, l in enumerate(lines):
        if "ERROR:" in l or "runtime error" in l or "Assertion" in l or "WARNING: ThreadSanitizer" in l:
            return "\n".join(lines[i:i + n])
    return "\n".join(lines[-n:])


class Died:
    def __init__(self, kind, err, rc):
        self.kind, self.err, self.rc = kind, err, rc     # kind: "san" or "hang"

    @property
    def key(self):
        return "hang" if self.kind == "hang" else san_key(self.err)


def _run_file(binary, casefile, outfile, timeout, env, args=(), stall=20):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["VF_PDEATH"] = "1"
    e.update(env or {})
    errf = outfile + ".err"
    with open(errf, "wb") as ef:
        p = subprocess.Popen([binary, casefile, outfile] + list(args), stdout=subprocess.DEVNULL, stderr=ef,
                             env=e, start_new_session=True, stdin=subprocess.DEVNULL)
        rc = None
        t0 = last = time.time()
        size = -1
        while True:
            try:
                rc = p.wait(0.25 if time.time() - t0 > 1 else 0.02)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            try:
                sz = os.path.getsize(outfile)
            except OSError:
                sz = -1
            if sz != size:
                size, last = sz, now
            if now - t0 > timeout or now - last > stall:      # no case finished for that long
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
    with open(errf, "rb") as ef:
        ef.seek(0, 2)
        sz = ef.tell()
        ef.seek(max(0, sz - 200000))
        err = ef.read().decode(errors="replace")
    os.unlink(errf)
    return rc, err


def parse_out(path):
    """-> dict case id -> list of lines; last started id; done flag"""
    res = {}
    cur = None
    done = False
    try:
        f = open(path, "r", errors="replace")
    except OSError:
        return res, None, False
    for line in f:
        line = line.rstrip("\n")
        if line.startswith("CASE "):
            cur = line[5:]
            res[cur] = []
        elif line == "DONE":
            done = True
        elif cur is not None:
            res[cur].append(line)
    f.close()
    return res, cur, done


def run_cases(ctx, binary, cases, shards=None, timeout=120, env=None, single_timeout=20, args=(), max_deaths=12):
    """cases: list of (id, text).  Runs them sharded; returns id -> list of lines, or a Died."""
    shards = shards or NPROC
    shards = max(1, min(shards, len(cases)))
    results = {}
    stop = {"deaths": 0}

    def shard(k):
        mine = cases[k::shards]
        i = 0
        rnd = 0
        while i < len(mine):
            cf = os.path.join(ctx.scratch, "c%d_%d_%d" % (os.getpid(), k, rnd))
            of = cf + ".out"
            rnd += 1
            with open(cf, "w") as f:
                for cid, text in mine[i:]:
                    f.write("CASE %s\n%s\nEND\n" % (cid, text))
            rc, err = _run_file(binary, cf, of, timeout, env, args)
            res, last, done = parse_out(of)
            os.unlink(cf)
            if os.path.exists(of):
                os.unlink(of)
            if rc == 0 and done:
                results.update(res)
                return
            if rc in (96, 97):
                raise HarnessError("driver refused its input: %s" % err[-500:])
            # find the case that died
            ids = [c for c, _ in mine]
            if last is None and rc is not None and (rc < 0 or "Sanitizer" in err or "runtime error:" in err):
                last = mine[i][0]       # in what it does before the first case
                res[last] = []
            if last is None:
                raise HarnessError("driver died before any case: rc=%s %s" % (rc, err[-1500:]))
            j = ids.index(last)
            for c in ids[i:j]:
                results[c] = res.get(c, [])
            if rc is None:
                # re-run it alone before calling it a hang
                with open(cf, "w") as f:
                    f.write("CASE %s\n%s\nEND\n" % mine[j])
                rc2, err2 = _run_file(binary, cf, of, single_timeout, env, args)
                res2, last2, done2 = parse_out(of)
                for x in (cf, of):
                    if os.path.exists(x):
                        os.unlink(x)
                if rc2 == 0 and done2:
                    results[last] = res2[last]
                else:
                    results[last] = Died("hang" if rc2 is None else "san", err2, rc2)
            elif j == len(mine) - 1 and "ENDCASE" in res[last][-1:]:
                # died after the last case, at teardown
                results[last] = Died("san", err, rc)
            else:
                results[last] = Died("san", err, rc)
            stop["deaths"] += 4 if isinstance(results[last], Died) and results[last].kind == "hang" else 1
            i = j + 1
            if stop["deaths"] > max_deaths:
                return

    with ThreadPoolExecutor(shards) as ex:
        for f in [ex.submit(shard, k) for k in range(shards)]:
            f.result()
    return results


def run_tool(cmd, timeout, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["VF_PDEATH"] = "1"
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         start_new_session=True, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL)
    try:
        o, er = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        rc = None
    return rc, o, er.decode(errors="replace")
