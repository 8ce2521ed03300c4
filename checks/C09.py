"""The same inputs and the same random state give the same simulation."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
import wl

RULE = ("one evaluation = 3 scenarios, each loaded once for reference, again in the same process after other work, next to "
        "another live instance, and in a fresh process with another memory layout; every curve, every path and every statistic "
        "must be identical; distinct = scenario shapes")
ASSUMPTIONS = ["one simulation at a time draws from the random state between setting it and the end of the loading"]
TIMEOUT = 90


def gen(tier, seed):
    n = 180 if tier == "quick" else 900
    out = []
    for kind, var in (("dta", wl.SINGLE), ("mcdta", wl.MULTI)):
        out += wl.chunks(wl.scenarios(seed, n, kind, "C09", var), 3)
    return out


def digest(ctx, s, o):
    """Everything observable, as (name, hash) pairs."""
    r = {}

    def put(k, a):
        r[k] = hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:16]

    put("stats", o.get_travel_stats())
    T = o.get_cur_loading_interval()
    put("T", np.array([T]))
    if s["kind"] == "dta":
        fi = [("in", o.get_link_in_cc), ("out", o.get_link_out_cc)]
    else:
        fi = [("cin", o.get_car_link_in_cc), ("cout", o.get_car_link_out_cc),
              ("tin", o.get_truck_link_in_cc), ("tout", o.get_truck_link_out_cc)]
    for k, f in fi:
        for l in s["links"]:
            put("%s %d" % (k, l[0]), f(l[0]))
    segs = ctx.mon.segments()
    if segs:
        h = hashlib.sha256()
        for v in sorted(segs[0].veh.values(), key=lambda v: v.id):
            h.update(repr((v.id, v.o, v.d, v.cls, v.type, v.start, v.label, v.gone,
                           [(t, c) for t, c, _n, _p in v.moves],
                           [segs[0].paths.get(p) for _t, _c, _n, p in v.moves])).encode())
        r["vehicles"] = h.hexdigest()[:16]
        ctx.count("vehicles", len(segs[0].veh))
    return r


def compare(ctx, s, a, b, how):
    bad = [k for k in a if a[k] != b.get(k)]
    ctx.expect(not bad, lambda: "%s: %s %s differ: %s" % (how, s["kind"], s["routing"], bad[:6]))
    ctx.count("compared", len(a))


def once(ctx, s, d):
    o = ctx.load(s, d)
    return digest(ctx, s, o), o


def child(ctx, case):
    """In a fresh process: digests of all scenarios."""
    junk = [bytearray(random.randrange(1, 70000)) for _ in range(random.randrange(3000))]
    res = []
    for i, s in enumerate(case["scens"]):
        res.append(once(ctx, s, ctx.write(s, "n%d" % i))[0])
    del junk
    return res


def run(ctx, case):
    if case.get("child"):
        return child(ctx, case)
    refs = []
    for i, s in enumerate(case["scens"]):
        d = ctx.write(s, "n%d" % i)
        ref, o1 = once(ctx, s, d)
        refs.append(ref)
        ctx.sig(wl.shape(s))
        # again, with the first instance still alive and the heap in another state
        junk = [bytearray(random.randrange(1, 5000)) for _ in range(2000)]
        del junk[::2]
        again, o2 = once(ctx, s, d)
        compare(ctx, s, ref, again, "second run in the same process")
        # what a finished instance tells does not change when others run
        if i:
            pass
        # next to an instance of another network, built in between
        t = case["scens"][(i + 1) % len(case["scens"])]
        d2 = ctx.write(t, "m%d" % i)
        o = ctx.build(s, d)
        other = ctx.build(t, d2)
        other.run_whole()
        ctx.mon.reset()
        ctx.mp.set_random_state(s["seed"] % (2 ** 31))
        o3 = ctx.build(s, d)
        ctx.mon.reset()
        o3.run_whole()
        compare(ctx, s, ref, digest(ctx, s, o3), "run next to another instance")
        del o, other, o3, junk
        # another seed must be able to change the outcome somewhere (counted over the run)
        s2 = dict(s, seed=s["seed"] + 1)
        o4 = ctx.load(s2, d)
        diff = digest(ctx, s2, o4)
        ctx.count("seed_matters", int(diff != ref))
        ctx.count("seed_tried")
        # every bit of the seed counts, and zero is a seed like any other
        if i == 0:
            s3 = dict(s, seed=(s["seed"] % 2 ** 31) ^ (1 << random.Random(s["seed"]).randrange(16, 31)))
            ctx.count("high_matters", int(digest(ctx, s3, ctx.load(s3, d)) != ref))
            ctx.count("high_tried")
            s4 = dict(s, seed=0)
            zero = digest(ctx, s4, ctx.load(s4, d))
            once(ctx, s, d)
            compare(ctx, s4, zero, digest(ctx, s4, ctx.load(s4, d)), "second run with the seed 0")
    job = os.path.join(ctx.tmp, "job.json")
    out = os.path.join(ctx.tmp, "out.json")
    with open(job, "w") as f:
        json.dump(dict(module=os.path.abspath(__file__), case=dict(case, child=True), so=ctx.so, mon_ok=ctx.mon.ok), f)
    import sim
    w = os.path.join(os.path.dirname(os.path.abspath(sim.__file__)), "worker.py")
    subprocess.run([sys.executable, w, job, out], stdout=subprocess.DEVNULL, timeout=80,
                   env=dict(os.environ, VERIF_JUNK="x" * random.randrange(5000), MALLOC_ARENA_MAX="1"))
    res = json.load(open(out))
    if res.get("viol"):
        ctx.fail("fresh process: " + res["viol"][0])
        return
    for s, ref, got in zip(case["scens"], refs, res["extra"]):
        compare(ctx, s, ref, got, "fresh process")


def finish(results):
    m = sum(r["obs"].get("seed_matters", 0) for _, r in results)
    n = sum(r["obs"].get("seed_tried", 0) for _, r in results)
    if n >= 20 and m < 0.5 * n:
        return [(results[0][0], "changing the random state changed only %d of %d simulations" % (m, n))]
    m = sum(r["obs"].get("high_matters", 0) for _, r in results)
    n = sum(r["obs"].get("high_tried", 0) for _, r in results)
    if n >= 20 and m < 0.4 * n:
        return [(results[0][0], "changing a high bit of the seed changed only %d of %d simulations" % (m, n))]
    return []
