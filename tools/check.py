#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decide one property on /repo's working tree.

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself could not give an answer."""
import json, os, sys, time, tempfile, shutil, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, parts

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    level, fns = parts.PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="hvcheck.")
    ctx = common.Ctx(prop, tier, seed, work)
    rc = 2
    try:
        ctx.build()
        for f in fns:
            f(ctx)
            if ctx.violations:
                break
        for v in ctx.violations:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
            print("  " + v["what"][:1500])
        for k in ctx.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        ctx.evidence(level, time.time() - t0)
        rc = 1 if ctx.violations else 0
        print("%s %s: %d states, %d transitions, %d traces validated, %d skipped, %d violations, %.1fs" % (
            prop, tier, ctx.states, ctx.transitions, ctx.traces, ctx.skipped, len(ctx.violations), time.time() - t0))
    except common.Fail as e:
        print("ERROR: %s" % e, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

main()
