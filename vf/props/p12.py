"""Listening, stopping and timeouts (harness/net.c, scenarios life, idle, emfile)."""
from .. import netlib

MODES = ("one", "poll", "threaded", "pool")


def run(ctx):
    ctx.rule = ("servers started, used, stopped (by the main thread, another thread, several at once, a handler, SIGTERM, or while starting), listened "
                "again and freed, with clients connected; monitors: connect results, return of listen, open descriptors, heap blocks, double closes, "
                "a watchdog for hangs; idle connections timed against the timeout with wide margins; descriptor exhaustion; ASan+UBSan and TSan "
                "builds with injected delays; distinct = different handler event traces")
    jobs = []
    for k in range(ctx.n(3, 20)):
        for i, m in enumerate(MODES):
            for d in (0, 1):
                s = ctx.rng.randrange(1 << 30)
                delay = (5, 15, 30)[(i + d + k) % 3]
                thr = (0, 2, 12)[(i + k) % 3] if m in ("threaded", "pool") else 0
                jobs.append(("asan", dict(scenario="life", mode=m, detach=d, seed=s, delay=delay, threads=thr, sig=1, cycles=14)))
                if k % 2 == 0 or not ctx.quick:
                    jobs.append(("tsan", dict(scenario="life", mode=m, detach=d, seed=s + 1, delay=delay, threads=thr, sig=1, cycles=10)))
    for k in range(ctx.n(1, 6)):
        for i, m in enumerate(MODES):
            s = ctx.rng.randrange(1 << 30)
            jobs.append((("asan", "tsan")[(k + i) % 2], dict(scenario="idle", mode=m, detach=(k + i // 2) % 2, seed=s, timeout=800 + 300 * (k % 3))))
            if m != "one":
                jobs.append((("asan", "tsan")[(k + i + 1) % 2], dict(scenario="emfile", mode=m, detach=(k + i) % 2, seed=s + 1)))
    jobs.sort(key=lambda j: j[1]["scenario"] != "idle")
    res = netlib.run_all(ctx, jobs, timeout=300, workers=6)
    netlib.summary(ctx, res)
    kinds = [0] * 6
    idle = []
    for f, kv, st in res:
        for i, v in enumerate(st.get("kinds", [])):
            kinds[i] += v
        if "idleclosed" in st:
            idle.append((kv["mode"], kv["timeout"]) + st["idleclosed"])
    ctx.extra["stops"] = dict(zip(("main", "while_starting", "concurrent", "handler", "other_thread", "sigterm"), kinds))
    ctx.extra["idle_closed_ms"] = idle
    ctx.require(min(kinds) >= 3, "some kind of stop was not tried")
    ctx.require(len(idle) >= 3 and ctx.extra["answered"] > 200, "too little observed")
