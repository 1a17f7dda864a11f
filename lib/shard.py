"""Runs one shard of a check: shard.py <prop> <tier> <seed> <specjson> <outdir> <private 0|1>"""
import sys, os, json, importlib, traceback, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import vlib


def main():
    prop, tier, seed, spec, out, private = sys.argv[1:7]
    spec = json.loads(spec)
    if private == "1" and not vlib.private_tmp():
        print("cannot mount", file=sys.stderr)
        return 2
    mod = importlib.import_module("checks." + prop.lower())
    ctx = vlib.Ctx(prop, tier, int(seed), spec, out)
    status = 0
    try:
        getattr(mod, spec["fn"])(ctx, **spec.get("args", {}))
    except vlib.Hang as e:
        if os.environ.get("VERIF_GDB"):
            import subprocess
            for a in ctx.agents:
                try:
                    subprocess.run("gdb -p %d -batch -ex 'thread apply all bt 14' > /var/tmp/gdb.%s.txt 2>&1" % (a.p.pid, a.name), shell=True, timeout=60)
                except Exception:
                    pass
        ctx.violation("hang", str(e))
    except vlib.Died as e:
        ctx.note(str(e))   # teardown reports the status
        ctx.violation("died", str(e))
    except vlib.HarnessError as e:
        ctx.note("harness: %s" % e)
        print("harness: %s" % e, file=sys.stderr)
        status = 2
    except Exception:
        traceback.print_exc()
        ctx.note(traceback.format_exc())
        status = 2
    try:
        ctx.teardown()
    except Exception:
        traceback.print_exc()
        status = 2
    with open(os.path.join(out, "result.json"), "w") as f:
        json.dump({"status": status, "viol": ctx.viol, "counters": ctx.counters, "samples": ctx.samples, "distinct": sorted(ctx.distinct_set),
                   "trace": ctx.trace[-3000:] if (ctx.viol or status) else []}, f)
    return status


if __name__ == "__main__":
    sys.exit(main())
