"""Memory safety: the workloads of the other checks under ASan, UBSan and container assertions."""
import ctypes
import gc
import importlib.util
import json
import os
import random
import re
import subprocess
import sys
import zlib

import numpy as np
import sim
import wl

RULE = ("one evaluation = one case of another check's workload run in the instrumented build; "
        "distinct = workloads x cases")
ASSUMPTIONS = ["what the workloads compute is judged by their own checks; here only the instrumentation's reports count",
               "inputs are well formed"]
VARIANTS = ["rel", "asanx"]
TIMEOUT = 240
HERE = os.path.dirname(os.path.abspath(__file__))
SELF = os.path.basename(__file__)[:-3]


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def gen(tier, seed):
    per = 7 if tier == "quick" else 200
    out = []
    for f in sorted(os.listdir(HERE)):
        name = f[:-3]
        if not f.endswith(".py") or name == SELF:
            continue
        m = mod(name)
        if getattr(m, "NO_ASAN", False):
            continue
        cs = m.gen("quick", seed + 1000)
        rng = random.Random("C16/%s/%d" % (name, seed))
        rng.shuffle(cs)
        for c in cs[:per]:
            out.append(dict(mod=name, case=c, _variant="asanx", _timeout=max(240, 3 * getattr(m, "TIMEOUT", 120))))
    rng = random.Random(seed)
    rng.shuffle(out)
    vg = []
    for f in sorted(os.listdir(HERE)):
        name = f[:-3]
        if not f.endswith(".py") or name == SELF:
            continue
        m = mod(name)
        if getattr(m, "NO_VALGRIND", False):
            continue
        cs = m.gen("quick", seed + 2000)
        rng = random.Random("C16v/%s/%d" % (name, seed))
        rng.shuffle(cs)
        for c in cs[:1 if tier == "quick" else 40]:
            if isinstance(c.get("scens"), list):
                c["scens"] = c["scens"][:1]
            vg.append(dict(mod=name, case=c, vg=True, _variant="rel", _timeout=VGT + 60))
    n = 12 if tier == "quick" else 120
    leak = []
    for kind, var in (("dta", LS), ("mcdta", LM)):
        leak += wl.chunks(wl.scenarios(seed, n, kind, "C16", var), 2, leak=True, _variant="rel")
    lsan = []
    for f in sorted(os.listdir(HERE)):
        name = f[:-3]
        if not f.endswith(".py") or name == SELF or name in NO_LSAN:
            continue
        m = mod(name)
        if getattr(m, "NO_ASAN", False):
            continue
        cs = m.gen("quick", seed + 3000)
        rng = random.Random("C16l/%s/%d" % (name, seed))
        rng.shuffle(cs)
        for c in cs:
            if isinstance(c.get("scens"), list):
                c["scens"] = c["scens"][:2]
        k, n = (4, 1) if tier == "quick" else (5, 12)
        for i in range(n):
            if cs[i * k:i * k + k]:
                lsan.append(dict(mod=name, cases=cs[i * k:i * k + k], lsan=True, _variant="asanx", _timeout=VGT + 200))
    # the long ones first
    return leak + vg + lsan + out


VGT = 100


def memcheck(ctx, case):
    """The same workload in valgrind: decisions or addresses from uninitialised memory, in the package's own code."""
    here = os.path.join(os.path.dirname(HERE), "lib")
    job, out, log = (os.path.join(ctx.tmp, x) for x in ("job", "out", "log"))
    with open(job, "w") as f:
        json.dump(dict(module=os.path.join(HERE, case["mod"] + ".py"), case=case["case"], so=ctx.so, mon_ok=ctx.mon.ok), f)
    p = subprocess.Popen(["valgrind", "--quiet", "--error-limit=no", "--undef-value-errors=yes", "--num-callers=30", "--log-file=" + log,
                          sys.executable, os.path.join(here, "worker.py"), job, out],
                         env=dict(os.environ, PYTHONMALLOC="malloc"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        p.wait(VGT)
        ctx.count("valgrind_runs")
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        ctx.count("valgrind_cut_short")
    text = open(log, errors="replace").read() if os.path.exists(log) else ""
    for b in re.split(r"\n==\d+== \n", text):
        fr = re.findall(r"(?:at|by) 0x\w+: (.*)", b)
        if any("_macposts_ext" in x for x in fr[:8]) and not any("vmon" in x for x in fr[:8]):
            own = [re.sub(r" \(in .*", "", x)[:90] for x in fr[:8] if "_macposts_ext" in x]
            head = re.sub(r"==\d+== ?", "", b.strip().split("\n")[0])
            ctx.fail("memcheck: %s in %s" % (head, " < ".join(own[:4])))
            break
    ctx.sig("vg %s %d" % (case["mod"], zlib.crc32(str(case["case"]).encode())))


# finding paths that cover links leaves some of the tried ones behind (see DESIGN.md)
NO_LSAN = ("C17", "C28")


def lsan(ctx, case):
    """The workload in the ASan build, then LeakSanitizer: what was allocated by the package's code and cannot be reached."""
    here = os.path.join(os.path.dirname(HERE), "lib")
    repo = os.environ.get("VERIF_REPO", "/repo")
    job, log = (os.path.join(ctx.tmp, x) for x in ("job", "log"))
    with open(job, "w") as f:
        json.dump(dict(cases=[[os.path.join(HERE, case["mod"] + ".py"), c] for c in case["cases"]], so=ctx.so, mon_ok=ctx.mon.ok), f)
    env = dict(os.environ, PYTHONMALLOC="malloc",
               ASAN_OPTIONS="detect_leaks=1:halt_on_error=0:fast_unwind_on_malloc=1:malloc_context_size=12:allocator_may_return_null=1",
               LSAN_OPTIONS="max_leaks=2000", UBSAN_OPTIONS="halt_on_error=0")
    with open(log, "wb") as f:
        p = subprocess.Popen([sys.executable, os.path.join(here, "lsan.py"), job], env=env, stdout=subprocess.DEVNULL, stderr=f)
        try:
            p.wait(VGT + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    text = open(log, errors="replace").read()
    if "LEAK-CHECK-DONE" not in text or "encountered a fatal error" in text:
        ctx.count("lsan_unavailable")
        return
    ctx.count("lsan_runs")
    ctx.count("lsan_cases", len(case["cases"]))
    for b in text.split("\n\n"):
        m = re.search(r"(Direct|Indirect) leak of (\d+) byte\(s\) in (\d+)", b)
        if not m:
            continue
        fr = re.findall(r"#\d+ 0x\w+ in (.*?)(?:\(.*)? (/\S+):\d+", b)
        fr = [(n, f) for n, f in fr if "sanitizer" not in f and "/include/c++/" not in f]
        if fr and fr[0][1].startswith(repo + "/"):
            ctx.fail("leaked %s bytes in %s allocations: %s" % (m.group(2), m.group(3), " < ".join(
                "%s %s" % (n[:60], os.path.relpath(f, repo)) for n, f in fr[:4] if f.startswith(repo + "/"))))
    ctx.sig("lsan %s %d" % (case["mod"], zlib.crc32(str(case["cases"]).encode())))


LS = [dict(routing="Hybrid", load=200, max_interval=4, flow_scalar=3), dict(routing="Fixed", load=200, max_interval=4),
      dict(routing="Hybrid", load=300, max_interval=4, total_interval=90, tight=True), dict(routing="Adaptive", load=200, max_interval=4)]
LM = [dict(routing="Biclass_Hybrid", load=300, max_interval=4), dict(routing="Hybrid", load=300, max_interval=4),
      dict(routing="Biclass_Hybrid", load=300, max_interval=4, total_interval=120, tight=True), dict(routing="Adaptive", load=300, max_interval=4)]
LIMIT = 32768


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def used():
    gc.collect()
    f = ctypes.CDLL("libc.so.6").mallinfo2
    f.restype = Mallinfo
    m = f()
    return m.uordblks + m.hblkhd


def leak(ctx, s, d):
    """Building, loading, querying and dropping an instance gives back what traffic and time needed."""
    grow, ask = [], []
    for k in range(5):
        a = used()
        o = ctx.load(s, d, flags=0, tree=s["routing"] not in ("Adaptive",))
        ctx.mon.reset()
        T = o.get_cur_loading_interval()
        n = len(s["links"])
        b = used()
        for _ in range(3):
            t = np.arange(T)
            if s["kind"] == "dta":
                o.get_in_ccs(), o.get_out_ccs(), o.get_link_tt(t, False)
                o.get_link_inflow(t, t + 1), o.get_travel_stats()
            else:
                o.get_car_in_ccs() if hasattr(o, "get_car_in_ccs") else None
                o.get_car_link_tt(t, False), o.get_truck_link_tt(t, False)
                o.get_link_car_inflow(t, t + 1), o.get_travel_stats()
        ask.append(used() - b)
        del o
        grow.append(used() - a)
        ctx.count("instances")
        ctx.count("intervals", T)
    ctx.expect(min(grow[1:]) < LIMIT, "every instance that is built, loaded and dropped keeps %s bytes" % grow)
    ctx.expect(min(ask[1:]) < LIMIT, "querying keeps %s bytes" % ask)
    ctx.count("kept_bytes", max(0, min(grow[1:])))
    ctx.sig("leak " + wl.shape(s))


def run(ctx, case):
    if case.get("leak"):
        for i, s in enumerate(case["scens"]):
            leak(ctx, s, ctx.write(s, "n%d" % i))
        return
    if case.get("vg"):
        return memcheck(ctx, case)
    if case.get("lsan"):
        return lsan(ctx, case)
    m = mod(case["mod"])
    sub = sim.Ctx(ctx.so, ctx.mon.ok)
    try:
        m.run(sub, case["case"])
    except Exception as e:
        ctx.count("exceptions")
    finally:
        sub.close()
    ctx.count("checks_run", sub.obs.get("checks", 0))
    ctx.count("workload_" + case["mod"])
    ctx.sig("%s %d" % (case["mod"], zlib.crc32(str(case["case"]).encode())))
