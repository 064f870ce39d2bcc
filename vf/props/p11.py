"""Concurrent clients each get exactly their own responses (harness/net.c, scenario conc)."""
from .. import netlib

MODES = ("one", "poll", "threaded", "pool")


def run(ctx):
    ctx.rule = ("concurrent socket clients (keep-alive, half-closed, dying mid-request or mid-response, cut segments) against real servers in "
                "every mode, detached or not; every request and response is a function of its id: the handler checks path, query, header, cookie "
                "and body, counts runs per id, and the client checks every byte; ASan+UBSan and TSan builds with delays injected at epoll, accept, "
                "read, write, close; and every kind of handler of the library at once (uploads, routes, files, ranges, listings, webdav, websockets, cookies, "
                "sessions, authentication, shortcuts: harness/mix.h), each exchange a function of its id; distinct = different handler event traces")
    jobs = []
    n = ctx.n(3, 20)
    for k in range(n):
        for i, m in enumerate(MODES):
            for d in (0, 1):
                s = ctx.rng.randrange(1 << 30)
                delay = (0, 5, 25)[(i + d + k) % 3]
                thr = (0, 2, 3, 12)[(i + k + d) % 4] if m in ("threaded", "pool") else 0
                jobs.append(("asan", dict(scenario="conc", mode=m, detach=d, seed=s, delay=delay, threads=thr, shortw=(0, 20)[(i + d) % 2], eintr=(0, 30)[k % 2])))
                if m in ("threaded", "pool", "poll") and (d == (i + k) % 2 or not ctx.quick):
                    jobs.append(("tsan", dict(scenario="conc", mode=m, detach=d, seed=s + 1, delay=delay, threads=thr, shortw=10)))
    res = netlib.run_all(ctx, jobs, timeout=240, workers=4)
    netlib.summary(ctx, res)
    for f, kv, st in netlib.mix(ctx, ctx.n(1, 12), netlib.MIXES, modes=("pool", "threaded", "pool", "threaded", "poll")):
        if st.get("trace"):
            ctx.distinct.add(st["trace"] + kv["mode"] + f)
    if not ctx.violations:
        ctx.require(len(ctx.extra["concurrent_exchanges"]) == 26 and min(ctx.extra["concurrent_exchanges"].values()) > 20, "some kind of handler was not used")
    ctx.require(ctx.extra["answered"] > 300 * len(jobs), "too few requests answered")
    ctx.require(ctx.extra["max_concurrent_handlers"] >= 3, "handlers never overlapped")
    ctx.require(ctx.extra["aborted"] > 10 * len(jobs) and ctx.extra["keepalive"] > 100, "no aborted or kept alive connections")
