"""Memory and threads go through the functions the application gave, and only through them."""
import copy, importlib, os, re
from .. import core, build, netlib

# (module, scale of its workload)
PARTS = [("p03", 0.15), ("p04", 0.15), ("p06", 0.15), ("p08", 0.1), ("p09", 0.15), ("p10", 0.15), ("p14", 0.1), ("p16", 0.1), ("p17", 0.1), ("p18", 0.1),
         ("p19", 0.25), ("p21", 0.15), ("p22", 0.15), ("p23", 0.2), ("p24", 0.2), ("p25", 0.3), ("p30", 0.2), ("p34", 0.15)]
MINE = re.compile(r"AllocatorMonitor|for pointer which is not owned|attempting free on address which was not malloc|vf_tag_(free|realloc)|alloc-dealloc-mismatch")


class Sub(core.Ctx):
    """the workload of another property; of what it reports only the allocator counts here"""
    def __init__(self, up, part, scale):
        self.__dict__.update(up.__dict__)
        self.rng = core.random.Random("P33/%s/%d" % (part, up.seed))
        self.up, self.part, self.scale = up, part, scale
        self.extra, self.distinct, self.samples, self.known, self.violations = {}, set(), [], [], {}
        self.evals = 0

    def n(self, quick, thorough):
        return max(1, int((quick if self.quick else min(thorough, quick * 8)) * self.scale))

    def require(self, cond, what):
        pass

    def violation(self, key, detail, replay=""):
        if MINE.search(str(detail)) or MINE.search(str(replay)[-20000:]):
            self.up.violation("%s:%s" % (self.part, key), detail, replay)

MIX = ("all",)      # kinds of handlers also run concurrently (harness/mix.h)


def run(ctx):
    ctx.rule = ("the workloads of the other properties run with an application allocator whose blocks carry a tag before the memory given out, so "
                "that a block released or resized by another allocator, or a foreign block given to it, is seen at once; real servers run with "
                "counted thread functions; distinct = different cases")
    rc, o, e = core.run_tool([build.harness("low", "asan")], 60)
    o = o.decode(errors="replace")
    bad = [l for l in o.splitlines() if l.startswith("BAD ")]
    for l in bad[:3]:
        ctx.violation("direct:" + l.split()[1], l, o)
    if not bad and (rc != 0 or "DONE" not in o):
        ctx.violation("direct:" + core.san_key(e), "rc=%s %s" % (rc, core.san_excerpt(e)), o + e[-4000:])
    ctx.evals += o.count("CALL ")
    ctx.count("direct_calls", o.count("CALL "))
    ctx.require(bad or ctx.extra["direct_calls"] > 200, "direct calls")
    log = os.path.join(ctx.scratch, "tags")
    os.environ["VF_TAGALLOC"] = log
    open(log, "w").close()
    os.chmod(log, 0o666)
    os.chmod(ctx.scratch, 0o755)
    try:
        for part, scale in PARTS:
            sub = Sub(ctx, part, scale)
            before = os.path.getsize(log)
            try:
                importlib.import_module("vf.props." + part).run(sub)
            except core.HarnessError as e:
                if not ctx.violations:
                    raise core.HarnessError("%s: %s" % (part, e))
            lines = [[int(x) for x in l.split()] for l in open(log).read()[before:].splitlines()]
            ctx.evals += sub.evals
            ctx.distinct |= {(part, d) for d in sub.distinct}
            ctx.extra["tagged_blocks_" + part] = sum(l[0] for l in lines)
            ctx.sample({"workload": part, "cases": sub.evals, "tagged blocks": ctx.extra["tagged_blocks_" + part]})
            ctx.require(ctx.extra["tagged_blocks_" + part] > 1000, "no tagged block in " + part)
        jobs = []
        for k in range(ctx.n(1, 6)):
            for i, m in enumerate(("threaded", "pool", "poll", "one")):
                for d in (0, 1):
                    jobs.append(("asan", dict(scenario="conc", mode=m, detach=d, seed=ctx.rng.randrange(1 << 30), delay=5, threads=(0, 3)[d], shortw=0)))
        for f, kv in jobs:
            before = os.path.getsize(log)
            sub = Sub(ctx, "net", 1)
            netlib.run_all(sub, [(f, kv)], timeout=240, workers=1)
            lines = [[int(x) for x in l.split()] for l in open(log).read()[before:].splitlines()]
            if not lines:
                ctx.require(False, "no report of %s" % kv)
                continue
            created, joined = sum(l[2] for l in lines), sum(l[3] for l in lines)
            ctx.count("threads_created", created)
            ctx.evals += 1
            ctx.distinct.add((kv["mode"], kv["detach"]))
            want = (kv["mode"] in ("threaded", "pool")) or kv["detach"]
            if created != joined:
                ctx.violation("threads", "%d threads created but %d joined with the given functions: %s" % (created, joined, kv), str(kv))
            if want and not created:
                ctx.violation("threads-bypass", "no thread was created with the given functions: %s" % kv, str(kv))
    finally:
        os.environ.pop("VF_TAGALLOC", None)
    ctx.require(ctx.extra.get("threads_created", 0) > 10, "no threads seen")
    ctx.assumptions = ["the functions are set before any other use of the library", "memory whose ownership passes to the library is allocated with them"]
