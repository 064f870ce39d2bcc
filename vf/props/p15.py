"""Dictionaries shared between threads (harness/stress.c, scenario dict)."""
from .. import stresslib


def run(ctx):
    ctx.rule = ("threads hold six shared dictionaries through references of their own, taken, passed on and released in any order while the owner's "
                "is dropped; locked writers keep pairs of keys and nested pairs equal, locked readers walk, look up, copy and serialise and check "
                "the pairs and the order; counters must add up; heap balance after the last release; ASan+UBSan and TSan builds, delays injected "
                "around locks; distinct = different operation traces")
    jobs = []
    for k in range(ctx.n(20, 160)):
        for i, t in enumerate((2, 4, 8)):
            s = ctx.rng.randrange(1 << 30)
            jobs.append((("asan", "tsan")[(i + k) % 2], dict(scenario="dict", threads=t, seed=s, delay=(0, 3, 15)[(i + k // 2) % 3], rounds=4, steps=400)))
    res = stresslib.run_all(ctx, jobs, timeout=200, workers=6)
    tot = lambda k: sum(st.get(k, 0) for _, _, st in res)
    for f, kv, st in res:
        if st.get("trace"):
            ctx.distinct.add(st["trace"])
    for k in ("ops", "dups", "dropped", "delays"):
        ctx.extra[k] = tot(k)
    ctx.extra["max_concurrent_readers"] = max([st.get("maxreaders", 0) for _, _, st in res] or [0])
    for f, kv, st in res[:4]:
        ctx.sample({"run": "stress-%s %s" % (f, " ".join("%s=%s" % x for x in kv.items())), "observed": st})
    ctx.require(ctx.extra["ops"] > 1000 * len(jobs) and ctx.extra["dropped"] > 10 * len(jobs) and ctx.extra["max_concurrent_readers"] >= 3, "too little observed")
