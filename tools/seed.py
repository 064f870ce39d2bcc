#!/usr/bin/env python3
"""Development tool: (re)create and try a planted bug in a scratch copy of /repo.
  seed.py make ID   : reads /verif/seeded/ID/edits.py-style stdin is not used; see make()
  seed.py try ID..  : apply patch in scratch, build, run the stable tests, demo on clean and patched tree, run the checks
Scratch: /tmp/sc (patched), build of checks in /tmp/scb."""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc"
ENV = dict(os.environ, VF_REPO=SC, VF_BUILD="/tmp/scb", VF_EVIDENCE="/tmp/sce", VERIF_SEED="1", VERIF_TIER="quick")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    if not os.path.exists(SC):
        sh("git clone -q /repo %s" % SC)
        os.makedirs("/tmp/vpsc", exist_ok=True)
        sh("cp /opt/vp/* /tmp/vpsc/; sed -i 's#/repo#/tmp/sc#g; s#/opt/vp#/tmp/vpsc#g' /tmp/vpsc/*.sh /tmp/vpsc/*.py")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("cd %s && git checkout -q -f . ; git fetch -q origin; git checkout -q --detach %s" % (SC, head))


def make(ident, prop, needs, breaks, edits, files, demo=None):
    """edits: [(path, old, new)]; files: {name: text} beside the patch"""
    scratch()
    d = os.path.join(V, "seeded", ident)
    os.makedirs(d, exist_ok=True)
    for path, old, new in edits:
        p = os.path.join(SC, path)
        s = open(p).read()
        if s.count(old) != 1:
            print(ident, "COUNT", s.count(old), repr(old))
            return
        # original lines only
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % SC).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    sh("git -C %s checkout -q -f ." % SC)
    # removed lines must be original
    for f in set(e[0] for e in edits):
        bl = sh("git -C /repo blame -s %s" % f).stdout.splitlines()
        import re
        cur = None
        infile = False
        for l in diff.splitlines():
            if l.startswith("+++ "):
                infile = l[6:] == f
            elif l.startswith("@@"):
                cur = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("--- "):
                pass
            elif infile and l.startswith("-"):
                if not bl[cur - 1].startswith("^78a6624"):
                    print(ident, "NOT ORIGINAL:", bl[cur - 1])
                cur += 1
            elif infile and l.startswith(" "):
                cur += 1
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n, t in files.items():
        open(os.path.join(d, n), "w").write(t)
    for n in os.listdir(os.path.join(V, "tools/demo")):
        if n in ("demo.sh",) and "demo.sh" in files:
            continue
        shutil.copy(os.path.join(V, "tools/demo", n), d)


def build():
    return sh("bash /tmp/vpsc/build.sh")


def tryone(ident, tests=True, allchecks=False):
    scratch()
    d = os.path.join(V, "seeded", ident)
    meta = json.load(open(d + "/meta.json"))
    demo = "/tmp/scdemo"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo)
    r = build()
    if r.returncode:
        return print(ident, "clean build failed", r.stdout[-500:])
    a = sh("bash %s/demo.sh" % demo, cwd=SC, timeout=300)
    r = sh("git apply %s/patch.diff" % d, cwd=SC)
    if r.returncode:
        return print(ident, "patch does not apply", r.stdout)
    r = build()
    if r.returncode:
        return print(ident, "build failed", r.stdout[-1500:])
    b = sh("bash %s/demo.sh" % demo, cwd=SC, timeout=300)
    out = "%s %s demo clean=%d patched=%d" % (ident, meta["property"], a.returncode, b.returncode)
    if a.returncode or not b.returncode:
        out += " [" + a.stdout[-300:] + "|" + b.stdout[-300:] + "]"
    if tests:
        sh("bash /tmp/vpsc/test.sh /tmp/sct.json")
        t = json.load(open("/tmp/sct.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        out += " tests_failed=%s" % [x for x in base if x not in t["passed"]]
    man = json.load(open(V + "/MANIFEST.json"))
    for c in man["checks"]:
        if allchecks or c["property"] == meta["property"]:
            t0 = time.time()
            r = sh("cd %s && %s" % (V, c["quick_cmd"]), env=ENV)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode or c["property"] == meta["property"]:
                out += " %s:rc=%d(%.0fs)%s" % (c["property"], r.returncode, time.time() - t0, (" " + v[0]) if v else "")
    sh("git checkout -q -f .", cwd=SC)
    print(out, flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "try":
        opts = [x for x in a if x.startswith("-")]
        ids = [x for x in a[1:] if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            tryone(i, tests="-t" not in opts, allchecks="-a" in opts)
