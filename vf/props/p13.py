"""The poller used directly from several threads (harness/stress.c, scenario poll)."""
from .. import stresslib


def run(ctx):
    ctx.rule = ("slots over socket pairs polled by 1 to 10 threads while a driver adds slots, sends data, hangs up, lets them time out, removes idle "
                "ones, and stops and restarts polling; callbacks check exclusivity, byte order and conservation, remove themselves or ask to stop; "
                "shutdown counted per slot; timeouts compared with the clock, also after callbacks that took longer than them; ASan+UBSan and TSan builds, delays injected around locks and epoll; "
                "distinct = different callback/shutdown event traces")
    jobs = []
    for k in range(ctx.n(12, 80)):
        for i, t in enumerate((1, 3, 6, 10)):
            s = ctx.rng.randrange(1 << 30)
            jobs.append((("asan", "tsan")[(i + k) % 2],
                         dict(scenario="poll", threads=t, seed=s, delay=(0, 3, 15)[(i + k) % 3], queue=(1, 0)[(i + k // 2) % 2], rounds=3, steps=400)))
    res = stresslib.run_all(ctx, jobs, timeout=200, workers=6)
    tot = lambda k: sum(st.get(k, 0) for _, _, st in res)
    for f, kv, st in res:
        if st.get("trace"):
            ctx.distinct.add(st["trace"])
    for k in ("slots", "calls", "removed", "selfremoved", "timeouts", "hangups", "asked", "batches", "epoll", "delays", "events", "naps"):
        ctx.extra[k] = tot(k)
    ctx.extra["max_concurrent_callbacks"] = max([st.get("maxconc", 0) for _, _, st in res] or [0])
    for f, kv, st in res[:4]:
        ctx.sample({"run": "stress-%s %s" % (f, " ".join("%s=%s" % x for x in kv.items())), "observed": st})
    ctx.require(all(ctx.extra[k] > 5 * len(jobs) for k in ("slots", "calls", "removed", "selfremoved", "timeouts", "hangups", "asked")), "too little observed")
    ctx.require(ctx.extra["max_concurrent_callbacks"] >= 3, "callbacks never overlapped")
