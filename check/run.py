#!/usr/bin/env python3
"""python3 check/run.py <property> [quick|thorough]: decides one property of /repo's working tree.

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; exit 2: the check could not answer."""
import os, re, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = lib.Ctx(prop, tier, seed)
    code = 0
    try:
        props.CHECKS[prop](ctx)
        for p, _, text in lib.load_findings():
            if p == prop:
                print("KNOWN-FINDING: property=%s %s" % (p, text))
        ctx.evidence(0)
        print("property=%s held: %d states, %d traces, %.1fs" % (prop, ctx.states, ctx.traces, __import__("time").time() - ctx.t0))
    except lib.Violation as v:
        known = [t for p, pat, t in lib.load_findings() if p == prop and re.search(pat, v.what)]
        ctx.samples.append(lib.short({"violation": v.what}))
        if known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[0]))
            ctx.evidence(0)
        else:
            path = lib.write_replay(ctx, v)
            ctx.evidence(1)
            print(v.what[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
    except lib.ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        lib.cleanup()
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
