import json, os, sys, traceback, shutil
from . import core


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == "replay":
        from . import replayer
        return replayer.main(sys.argv[2:])
    if sys.argv[1] == "setup":
        from . import checks
        print("ok", len(checks.CHECKS)); return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import checks
    ctx = core.Ctx(pid, tier, seed)
    try:
        checks.CHECKS[pid](ctx)
        rc = core.finish(ctx)
    except core.BuildBroken as e:
        print("check could not build the code under test:\n" + str(e)); rc = 3
    except Exception:
        traceback.print_exc()
        # violations found before the machinery failed still count
        rc = core.finish(ctx) if ctx.violations else 2
        if rc == 0:
            rc = 2
    finally:
        ctx.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(ctx.dir, True)
    return rc


sys.exit(main())
