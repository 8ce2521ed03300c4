"""Run cases of the checks in one process of the ASan build, then ask LeakSanitizer what cannot be reached any more.

usage: lsan.py JOB   (job: list of [module path, case], so, mon_ok)
"""
import ctypes
import gc
import importlib.util
import json
import os
import sys


def main():
    job = json.load(open(sys.argv[1]))
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
    import sim
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    done = 0
    for path, case in job["cases"]:
        spec = importlib.util.spec_from_file_location("m" + os.path.basename(path)[:-3], path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        ctx = sim.Ctx(job["so"], job["mon_ok"])
        try:
            m.run(ctx, case)
        except Exception as e:
            sys.stderr.write("EXC %r\n" % e)
        ctx.mon.reset()
        ctx.close()
        del ctx, m
        gc.collect()
        done += 1
    sys.stderr.write("\nCASES-DONE %d\n" % done)
    sys.stderr.flush()
    ctypes.CDLL(None).__lsan_do_recoverable_leak_check()
    sys.stderr.write("\nLEAK-CHECK-DONE\n")
    sys.stderr.flush()
    os._exit(0)


main()
