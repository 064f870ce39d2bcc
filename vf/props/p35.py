"""Dropping privileges (harness/priv.c)."""
import os, pwd
from .. import build, core, netlib

IDS = ["initgroups", "setgroups", "setgid", "setuid", "setregid", "setreuid", "setresgid", "setresuid"]


def binary(flavor="asan"):
    return build.harness("priv", flavor, wrap=["bind", "accept4"] + IDS)


def run(ctx):
    ctx.rule = ("servers of every mode started as root, told to run as one of the users of this system; the kernel's idea of the identity of the process and "
                "of each of its threads, and whether it can open a file of root or become root again, observed at each accept and in the handlers; binding "
                "must happen before; users that do not exist, processes that may not change, and each identity changing call failing must "
                "end in an error with nothing served; listening again after a stop; non-trivial = a request was served, or had to be refused")
    r = ctx.rng
    secret = os.path.join(ctx.scratch, "secret")
    with open(secret, "w") as f:
        f.write("root only\n")
    os.chmod(secret, 0o600)
    users = [p.pw_name for p in pwd.getpwall() if p.pw_uid != 0 and p.pw_gid != 0]
    for u in ("nobody", "daemon"):
        if u not in users:
            ctx.require(False, "no user %s here" % u)
            return
    jobs = []
    modes = ("poll", "threaded", "pool", "one")

    def add(**kv):
        m = modes[len(jobs) % 4]
        d = dict(mode=m, detach=(len(jobs) // 4) % 2, secret=secret)
        if r.random() < .3 and m != "one":
            d["points"] = 2
            d["busy"] = r.choice([0, 1])
        if r.random() < .3:
            d["twice"] = r.choice([1, 2])
        d.update(kv)
        d["scenario"] = "priv"
        jobs.append(("asan", d))
    for k in range(ctx.n(2, 12)):
        for i in range(8):
            add(user=("nobody", "daemon", r.choice(users))[i % 3], expect="drop")
        for i in range(2):
            add(user="nosuchuser-%d" % r.randrange(1000), expect="fail")
        add(user="", expect="fail")
        add(user=r.choice(users), expect="drop", **{"as": "root"})
        for u, a in (("nobody", "nobody"), ("daemon", "daemon")):
            add(user=u, expect="drop", **{"as": a})
        for u, a in (("nobody", "daemon"), ("root", "nobody"), ("daemon", "nobody")):
            add(user=u, expect="fail", **{"as": a})
        for f in (1, 2, 3):
            add(user=r.choice(("nobody", "daemon")), expect="fail", fail=f)
    skipped = []

    def onout(kv, out):
        if "SKIP" in out:
            skipped.append(out.split("\n")[0])
        ctx.distinct.add("%s/%s/%s/%s/%s" % (kv["mode"], kv["detach"], kv["expect"], kv.get("as"), kv.get("fail", 0)))
    res = netlib.run_all(ctx, jobs, timeout=150, workers=6, binary=binary, onout=onout)
    for k in ("bind", "accept", "idcalls", "handled", "threads", "failed", "served"):
        ctx.extra[k] = sum(st.get(k, 0) for _, _, st in res)
    ctx.extra["skipped"] = len(skipped)
    for f, kv, st in res[:4]:
        ctx.sample({"run": "priv-%s %s" % (f, " ".join("%s=%s" % x for x in kv.items())), "observed": st})
    if skipped:
        ctx.assumptions = ["%d runs skipped here: %s" % (len(skipped), skipped[0])]
    if len(skipped) < len(jobs):
        ctx.require(ctx.extra["handled"] >= 8 and ctx.extra["failed"] >= 3, "too little observed")
