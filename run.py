#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decides one property on /repo's working tree.
exit 0: held on everything explored; 1: VIOLATION line; 2: the check could not do its work."""
import importlib, os, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core, build


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("vf.props.%s" % prop.lower())
    ctx = core.Ctx(prop, tier, seed, getattr(mod, "LEVEL", "exploration"))
    if tier == "quick":
        def late():
            """Changes that make many runs hang must not keep what is known from being said."""
            if ctx.violations:
                core.shutil.rmtree = lambda *a, **k: None
                ctx.finish()
                for pid in core.children():
                    try:
                        os.killpg(pid, 9)
                    except OSError:
                        pass
                os._exit(1)
        t = threading.Timer(float(os.environ.get("VF_LATE", 660)), late)
        t.daemon = True
        t.start()
    try:
        mod.run(ctx)
        if getattr(mod, "MIX", None):
            from vf import netlib
            netlib.mix(ctx, ctx.n(1, 8), mod.MIX)
    except (core.HarnessError, build.BuildError) as e:
        if ctx.violations:
            return ctx.finish()
        print("CHECK-ERROR property=%s %s" % (prop, e))
        core.shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return ctx.finish()
        core.shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    finally:
        build.prune()
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
