"""Runs of harness/net.c: real servers with concurrent socket clients."""
import os, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
from . import build, core

WRAP = ["epoll_ctl", "epoll_wait", "accept4", "close", "shutdown", "read", "write", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"]
TSAN = core.SAN_ENV["TSAN_OPTIONS"] + ":second_deadlock_stack=1:detect_deadlocks=0"


def binary(flavor="asan"):
    return build.harness("net", flavor, wrap=WRAP)


def tsan_key(err):
    """kind and the two innermost library functions of a TSan report"""
    m = re.search(r"WARNING: ThreadSanitizer: (.+?) \(pid", err)
    kind = m.group(1).replace(" ", "_") if m else "report"
    fns = []
    for m in re.finditer(r"#\d+ (\S+) (\S+)", err):
        if "/src/onion/" in m.group(2):
            if m.group(1) not in fns:
                fns.append(m.group(1))
            if len(fns) == 2:
                break
    return "%s@%s" % (kind, "+".join(fns) or "?")


def one(binp, flavor, kv, timeout):
    args = ["%s=%s" % x for x in kv.items()]
    rc, o, err = core.run_tool([binp] + args, timeout, env={"TSAN_OPTIONS": TSAN})
    return rc, o.decode(errors="replace"), err, args


def run_all(ctx, jobs, timeout=120, workers=4, binary=binary, onout=None):
    """jobs: list of (flavor, kv). Reports violations; returns list of (flavor, kv, stats dict)."""
    bins = {f: binary(f) for f in sorted({j[0] for j in jobs})}
    res = []
    with ThreadPoolExecutor(workers) as ex:
        futs = [(f, kv, ex.submit(one, bins[f], f, kv, timeout)) for f, kv in jobs]
        t0 = time.time()
        for n, (f, kv, fu) in enumerate(futs):
            if ctx.violations and ctx.tier == "quick" and time.time() - t0 > 200:      # enough is known
                for x in futs[n:]:
                    x[2].cancel()
                if fu.cancelled():
                    continue
            rc, out, err, args = fu.result()
            ctx.evals += 1
            st = {}
            if onout:
                onout(kv, out)
            for l in out.splitlines():
                if l.startswith("FAIL "):
                    ctx.violation("%s:%s" % (kv.get("scenario"), l.split()[1]), "%s\nrun: net-%s %s" % (l, f, " ".join(args)),
                                  "net-%s %s\n\n%s\n%s" % (f, " ".join(args), out, err[-4000:]))
                elif l.startswith("STAT "):
                    w = l.split()[1:]
                    if w[0] in ("trace",):
                        st["trace"] = w[1]
                    elif w[0] == "kinds":
                        st["kinds"] = [int(x) for x in w[1:]]
                    elif w[0] == "idleclosed":
                        st["idleclosed"] = (int(w[1]), int(w[2]))
                    else:
                        for a, b in zip(w[::2], w[1::2]):
                            st[a] = int(b)
            if "ThreadSanitizer" in err and "WARNING: ThreadSanitizer" in err:
                for part in err.split("==================")[1:]:
                    if "WARNING: ThreadSanitizer" in part:
                        ctx.violation("tsan:" + tsan_key(part), "%s\nrun: net-%s %s" % (core.san_excerpt(part, 45), f, " ".join(args)), part)
            elif rc not in (0, 1, 7):
                if rc is None:
                    ctx.violation("%s:hang" % kv.get("scenario"), "run did not end in %d s: net-%s %s" % (timeout, f, " ".join(args)), out + err[-4000:])
                elif rc == 3 or "ERROR ids" in out:
                    raise core.HarnessError("net driver: " + out[-300:])
                else:
                    ctx.violation("san:" + core.san_key(err), "rc=%s %s\nrun: net-%s %s" % (rc, core.san_excerpt(err), f, " ".join(args)), err[-8000:])
            elif "DONE" not in out and rc == 0:
                raise core.HarnessError("net driver gave no result: " + out[-300:] + err[-300:])
            res.append((f, kv, st))
    return res


MIXES = ["multipart,put,raw", "regexp,nested,path,language", "printf,htmlsafe,json,shortcut,redirect", "cookie,session", "export,listing",
         "file,range,head", "webdav", "websocket", "auth,noauth", "static,notfound,internal_redirect,regexp", "all"]


def mix(ctx, n, kinds=("all",), modes=("pool", "threaded"), workers=4, **kw):
    """Every kind of handler named, at once, for concurrent clients (harness/mix.h): n runs per mode and sanitizer."""
    jobs = []
    os.chmod(ctx.scratch, 0o711)
    for k in range(n):
        for j, g in enumerate(kinds):
            for f in ("asan", "tsan"):
                i = k + j + (f == "tsan")
                m = modes[i % len(modes)]
                d = os.path.join(ctx.scratch, "mix%d" % len(jobs))
                os.makedirs(d)
                kv = dict(scenario="mix", mode=m, kinds=g, dir=d, seed=ctx.rng.randrange(1 << 30), delay=(5, 0, 20)[i % 3],
                          threads=(0, 3, 12)[(k + j) % 3], detach=(i // 2) % 2, clients=12, reqs=50, shortw=(0, 10)[k % 2])
                kv.update(kw)
                jobs.append((f, kv))
    res = run_all(ctx, jobs, timeout=240, workers=workers)
    for _, kv in jobs:
        shutil.rmtree(kv["dir"], ignore_errors=True)
    e = ctx.extra.setdefault("concurrent_exchanges", {})
    for _, _, st in res:
        for a, b in st.items():
            if a.startswith("kind_") and b:
                e[a[5:]] = e.get(a[5:], 0) + b
    over = max([st.get("maxconc", 0) for _, _, st in res] or [0])
    ctx.extra["max_concurrent_handlers"] = max(over, ctx.extra.get("max_concurrent_handlers", 0))
    if not ctx.violations:
        ctx.require(sum(e.values()) > 200 * len(jobs), "too few concurrent exchanges")
    return res


def summary(ctx, res):
    """evidence of what the runs observed"""
    tot = lambda k: sum(st.get(k, 0) for _, _, st in res)
    for f, kv, st in res:
        if st.get("trace"):
            ctx.distinct.add(st["trace"] + kv["mode"] + f)
    ctx.extra.update(runs=len(res), requests=tot("requests"), answered=tot("ok"), aborted=tot("abort"), keepalive=tot("keep"), connections=tot("conns"),
                     half_closed=tot("half"), yielded=tot("yields"), delays_injected=tot("delays"), epoll_waits=tot("epoll"), accepts=tot("accepts"),
                     overlapping_handlers=tot("overlap"), order_inversions=tot("inversions"),
                     max_concurrent_handlers=max([st.get("maxconc", 0) for _, _, st in res] or [0]),
                     runs_per_sanitizer={f: sum(x[0] == f for x in res) for f in {x[0] for x in res}})
    for f, kv, st in res[:4]:
        ctx.sample({"run": "net-%s %s" % (f, " ".join("%s=%s" % x for x in kv.items())), "observed": st})
