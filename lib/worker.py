"""Run one case of one check in this process and write the result as JSON."""
import faulthandler
import importlib.util
import json
import os
import sys
import traceback

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.path.dirname(here), "checks"))


def main():
    job = json.load(open(sys.argv[1]))
    faulthandler.enable()
    spec = importlib.util.spec_from_file_location("chk", job["module"])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    import sim
    ctx = sim.Ctx(job["so"], job["mon_ok"])
    res = {}
    try:
        extra = mod.run(ctx, job["case"])
        res = dict(viol=ctx.viol, obs=ctx.obs, sigs=sorted(ctx.sigs), extra=extra)
    except Exception as e:  # the real code refused a valid scenario, or misbehaved
        tb = traceback.format_exc()
        res = dict(viol=ctx.viol + ["unexpected %s: %s" % (type(e).__name__, e)],
                   obs=ctx.obs, sigs=sorted(ctx.sigs), tb=tb)
    finally:
        ctx.close()
    sys.stdout.flush()
    with open(sys.argv[2] + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(sys.argv[2] + ".tmp", sys.argv[2])
    # skip interpreter shutdown: not part of any property
    os._exit(0)


main()
