"""Requests finished later from another thread (harness/net.c, scenario yield)."""
from .. import netlib


def run(ctx):
    ctx.rule = ("concurrent socket clients; three quarters of the requests are yielded and finished by other threads, at once, soon or later, before "
                "or after the handler returns; contents are a function of the request id and checked byte by byte, runs are counted per id, "
                "descriptors and heap are counted after stop and free; ASan+UBSan and TSan builds with injected delays; distinct = different "
                "event traces")
    jobs = []
    for k in range(ctx.n(5, 30)):
        for i, m in enumerate(("poll", "threaded", "pool", "one")):
            s = ctx.rng.randrange(1 << 30)
            for j, f in enumerate(("asan", "tsan")):
                if m != "one" or k == 0:
                    jobs.append((f, dict(scenario="yield", mode=m, detach=(i + j + k) % 2, seed=s + j, delay=(0, 5, 20)[(i + j + k) % 3])))
    res = netlib.run_all(ctx, jobs, timeout=240, workers=5)
    netlib.summary(ctx, res)
    ctx.require(ctx.extra["yielded"] > 100 * len(jobs) and ctx.extra["answered"] > 300 * len(jobs), "too few yielded requests")
