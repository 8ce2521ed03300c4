"""Driver of a check: build /repo's tree, run the cases, judge, write evidence.

usage: driver.py <property> [--tier quick|thorough] [--replay FILE]
exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed
"""
import glob
import hashlib
import importlib.util
import json
import os
import re
import signal
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
import build  # noqa: E402

PY = build.PY


def load_mod(path):
    spec = importlib.util.spec_from_file_location("chk", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def report(text):
    """The essence of a sanitizer report or crash: the headline and /repo's frames."""
    head, frames = "", []
    for line in text.splitlines():
        if not head and ("ERROR: AddressSanitizer" in line or "runtime error:" in line):
            head = re.sub(r"0x[0-9a-f]+", "0x", line.strip())
            head = re.sub(r"==\d+==", "", head)
        m = re.search(r"#\d+ 0x\w+ in (.*?)(?:\(.*)? (%s/\S+)" % re.escape(build.REPO), line)
        if m and len(frames) < 8:
            frames.append(m.group(1)[:80] + " " + m.group(2))
    if not head:
        head = " ".join(text.split())[-300:]
    return head + " | " + " < ".join(frames)


def run_case(path, case, so, mon_ok, variant, timeout, workdir, idx):
    job = os.path.join(workdir, "job%d.json" % idx)
    out = os.path.join(workdir, "out%d.json" % idx)
    err = os.path.join(workdir, "err%d.txt" % idx)
    with open(job, "w") as f:
        json.dump(dict(module=path, case=case, so=so, mon_ok=mon_ok), f)
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "LANG", "VERIF_SEED", "VERIF_TIER")}
    env.update(PYTHONPATH=os.path.dirname(so) + ":" + build.REPO,
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", TMPDIR=workdir, MPLBACKEND="Agg")
    env["VERIF_REPO"] = build.REPO
    env.update(case.get("_env", {}))
    if "asan" in variant:
        lib = subprocess.run(["g++", "-print-file-name=libasan.so"],
                             capture_output=True, text=True).stdout.strip()
        std = subprocess.run(["g++", "-print-file-name=libstdc++.so.6"],
                             capture_output=True, text=True).stdout.strip()
        # libstdc++ too, so that the exception interceptor finds the real function
        env["LD_PRELOAD"] = os.path.realpath(lib) + " " + os.path.realpath(std)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:abort_on_error=1:"
                               "detect_stack_use_after_return=1:"
                               "strict_init_order=0:allocator_may_return_null=1:"
                               "alloc_dealloc_mismatch=1:handle_segv=1:"
                               "malloc_fill_byte=170:max_malloc_fill_size=1000000")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    if os.path.exists(out):
        os.remove(out)
    with open(err, "wb") as ef:
        p = subprocess.Popen([PY, "-X", "faulthandler", os.path.join(HERE, "worker.py"), job, out],
                             stdout=subprocess.DEVNULL, stderr=ef, env=env,
                             cwd=workdir, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    text = open(err, errors="replace").read()
    if rc is None:
        return dict(viol=["no answer within %d s" % timeout], hang=True, obs={}, sigs=[], err=text[-3000:])
    if os.path.exists(out):
        r = json.load(open(out))
        if rc != 0:
            r["viol"].append("process died with %s after the case" % rc)
        r["err"] = text[-6000:]
        return r
    return dict(viol=["process died with exit status %s: %s" % (rc, report(text))], obs={},
                sigs=[], err=text[:6000])


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", [])
            if k.get("property") == prop and k.get("status") == "known"]


SOFT, HARD = 420.0, 840.0


def main():
    t0 = time.time()
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        replay = a[a.index("--replay") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    path = os.path.join(VERIF, "checks", prop + ".py")
    mod = load_mod(path)
    variants = getattr(mod, "VARIANTS", ["rel"])
    built = {}
    for v in variants:
        try:
            d, ok = build.build(v)
        except build.BuildError as e:
            sys.stderr.write("BUILD FAILED\n%s\n" % e)
            return 2
        built[v] = (glob.glob(os.path.join(d, "_macposts_ext*.so"))[0], ok)
    tb = time.time() - t0
    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = mod.gen(tier, seed)
    # a quick run starts nothing new after SOFT seconds and ends before HARD
    base_to = getattr(mod, "TIMEOUT", 120)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    jobs = []
    for v in variants:
        for i, c in enumerate(cases):
            if c.get("_variant", v) == v:
                jobs.append((len(jobs), v, c))

    def one(j):
        idx, v, c = j
        so, ok = built[v]
        r = run_case(path, c, so, ok, v, c.get("_timeout", base_to), work, idx)
        if r.get("hang"):
            # once more, with more time, before calling it a hang
            to = c.get("_timeout", base_to)
            if tier == "quick":
                left = HARD - (time.time() - t0)
                if left < to:
                    return None
                to = min(2 * to, left)
            else:
                to = 2 * to
            r = run_case(path, c, so, ok, v, to, work, idx)
        return r

    try:
        par = getattr(mod, "PARALLEL", os.cpu_count() or 4)
        stop = [0]

        def guarded(j):
            # enough witnesses: do not spend the budget on more of them
            if stop[0] >= 6:
                return None
            if tier == "quick" and time.time() - t0 > SOFT:
                return None
            r = one(j)
            if r and r["viol"]:
                stop[0] += 1
            return r
        with ThreadPoolExecutor(par) as ex:
            results = list(ex.map(guarded, jobs))
        pairs = [(j, r) for j, r in zip(jobs, results) if r is not None]
        post = []
        if hasattr(mod, "finish") and not replay:
            post = mod.finish([(j[2], r) for j, r in pairs]) or []
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings(prop)
    hit = {}
    viols = []
    for (idx, v, c), r in pairs:
        for m in r["viol"]:
            k = next((k for k in known if all(s in m for s in k["match"])), None)
            if k:
                hit[k["id"]] = k
            else:
                viols.append((c, v, m, r))
    for c, m in post:
        k = next((k for k in known if all(s in m for s in k["match"])), None)
        if k:
            hit[k["id"]] = k
        else:
            viols.append((c, variants[0], m, {}))

    obs = {}
    sigs = set()
    nontriv = 0
    for (idx, v, c), r in pairs:
        for k, n in r.get("obs", {}).items():
            obs[k] = obs.get(k, 0) + n
        if r.get("sigs"):
            new = set(r["sigs"]) - sigs
            nontriv += len(new)
            sigs |= set(r["sigs"])
    samples = []
    for (idx, v, c), r in pairs[:2]:
        cc = json.dumps(c)
        samples.append(dict(case=json.loads(cc) if len(cc) < 6000 else cc[:6000],
                            observed=r.get("obs", {}), variant=v))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=len(pairs), not_run=len(jobs) - len(pairs), distinct_nontrivial=len(sigs),
                            rule=getattr(mod, "RULE", ""), samples=samples,
                            observed=obs, build_s=round(tb, 1),
                            monitor_attached=all(ok for _, ok in built.values())),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viols:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        shown = 0
        done = set()
        for c, v, m, r in viols:
            h = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:12]
            rp = os.path.join(rd, "%s-%s.json" % (prop, h))
            with open(rp, "w") as f:
                json.dump(dict(property=prop, variant=v, message=m, case=c,
                               tb=r.get("tb"), stderr=r.get("err")), f, indent=1)
            if h in done:
                continue
            done.add(h)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  " + m[:600])
            if os.environ.get("VERIF_DEBUG"):
                print(r.get("tb") or "")
            shown += 1
            if shown >= 8:
                break
        return 1
    print("%s %s: held on %d cases (%d distinct), observed %s, %.1f s"
          % (prop, tier, len(pairs), len(sigs), json.dumps(obs), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
