#!/usr/bin/env python3
"""check.py <property id>: decides one property against /repo's working tree.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: undecided."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("checks." + prop.lower())
    ctx = vlib.Ctx(prop)
    rc = 2
    try:
        try:
            mod.run(ctx)
        except vlib.Violation as v:
            ctx.violation(v.what, v.replay)
        except vlib.Died as d:
            if d.agent_fault():
                ctx.violation("the agent's code ended the process: %s" % d.why, {"stderr": d.stderr[-20000:]})
            else:
                raise vlib.CheckError("%s\n%s" % (d.why, d.stderr[-6000:]))
        ctx.evidence("model_checking")
        for k in ctx.known:
            if k["key"] not in ctx.known_hit and k.get("always"):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if ctx.violations:
            for what, path in ctx.violations[:5]:
                print("  %s" % what[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, ctx.violations[0][1]), flush=True)
            rc = 1
        else:
            ctx.log("held: %s" % {k: v for k, v in ctx.cov.items() if isinstance(v, int)})
            rc = 0
    except vlib.CheckError as e:
        if ctx.violations:
            ctx.evidence("model_checking")
            print("VIOLATION property=%s replay=%s" % (prop, ctx.violations[0][1]), flush=True)
            rc = 1
            ctx.log("(later: %s)" % str(e)[:2000])
        else:
            print("UNDECIDED property=%s: %s" % (prop, e), flush=True)
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            ctx.evidence("model_checking")
            print("VIOLATION property=%s replay=%s" % (prop, ctx.violations[0][1]), flush=True)
            rc = 1
    finally:
        try:
            ctx.finish()
        except Exception:
            traceback.print_exc()
    return rc

if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
