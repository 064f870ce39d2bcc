"""Concurrent use of sessions (harness/net.c, scenario sess)."""
import os
from .. import netlib


def run(ctx):
    ctx.rule = ("concurrent socket clients, each keeping a model of its own session (set, increment, delete, read, remove, over keep-alive and new "
                "connections) and incrementing four shared ones; every answer is compared with the model, shared counters must add up (memory "
                "backend), removed sessions stay removed; memory and sqlite backends; ASan+UBSan and TSan builds with injected delays; distinct = "
                "different handler event traces")
    jobs = []
    for k in range(ctx.n(5, 30)):
        for i, m in enumerate(("poll", "threaded", "pool", "one")):
            s = ctx.rng.randrange(1 << 30)
            for j, f in enumerate(("asan", "tsan")):
                kv = dict(scenario="sess", mode=m, detach=(i + j + k) % 2, seed=s + j, delay=(5, 20)[(i + j + k) % 2], rounds=2, clients=10, reqs=40)
                if (k + i) % 2:
                    kv["db"] = os.path.join(ctx.scratch, "s%d%d%d.db" % (k, i, j))
                if m != "one" or k == 0:
                    jobs.append((f, kv))
    res = netlib.run_all(ctx, jobs, timeout=240, workers=6)
    netlib.summary(ctx, res)
    ctx.extra["backends"] = {"memory": sum("db" not in kv for _, kv, _ in res), "sqlite": sum("db" in kv for _, kv, _ in res)}
    ctx.require(ctx.extra["answered"] > 300 * len(jobs) and ctx.extra["max_concurrent_handlers"] >= 3, "too little observed")
