"""./check replay <file> [n]: run the recorded scripts of a VIOLATION again on the current tree."""
import json, os, shutil
from . import core


def main(args):
    if not args:
        print(__doc__)
        return 2
    vs = json.load(open(args[0]))
    if len(args) > 1:
        vs = [vs[int(args[1])]]
    ctx = core.Ctx(vs[0]["property"] if vs else "replay", "quick", 1)
    rc = 0
    try:
        for n, v in enumerate(vs):
            print("== %d: %s" % (n, v["kind"]))
            print("   recorded: %s" % str(v["detail"])[:1500])
            script = v.get("script")
            if not script:
                print("   (no script: run the check again)")
                continue
            var = v.get("variant") or "asan"
            for l in script:
                print("   > " + l[:300])
            out = core._run_chunk(ctx.binary(var), [(0, script)], os.path.join(ctx.dir, "replay.txt"))
            e = out.get("__exit__")
            r = out.get(0)
            if isinstance(r, core.Crash) or e:
                r = r if isinstance(r, core.Crash) else e
                print("   now: %s\n%s" % (r.why, r.stderr[-1500:]))
                rc = 1
                continue
            for l in r or []:
                print("   < " + l[:300])
            if v.get("expected") is not None:
                print("   specified: %s" % str(v["expected"])[:1500])
            same = v.get("got") is not None and [x[:2000] for x in r] == v["got"]
            print("   now: " + ("the same observations as recorded" if same else "other observations than recorded"))
            rc = rc or int(same)
    finally:
        ctx.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(ctx.dir, True)
    return rc
