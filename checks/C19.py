"""How long a loading runs, when it releases, and what may not influence it."""
import hashlib
import importlib.util
import math
import os
import random

import numpy as np
import wl

HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


C03, C09 = mod("C03"), mod("C09")
RULE = ("one evaluation = 3 scenarios; the monitor counts the intervals and the vehicles under way after each one and the end is compared with the horizon asked for, "
        "departures with the first and last departure interval, and the results of the same loading with progress printed and after the vehicles were deleted; "
        "distinct = scenario shapes, horizons and first intervals")
ASSUMPTIONS = []
TIMEOUT = 120


def gen(tier, seed):
    n = 600 if tier == "quick" else 1500
    out = []
    for kind, var in (("dta", wl.SINGLE + [dict(load=4), dict(load=60, tight=True)]), ("mcdta", wl.MULTI + [dict(load=4), dict(load=60, tight=True)])):
        ss = wl.scenarios(seed, n, kind, "C19", var)
        for i, s in enumerate(ss):
            rng = random.Random("C19/%s/%d/%d" % (kind, seed, i))
            a, f = s["max_interval"], s["assign_frq"]
            s["total_interval"] = rng.choice([-1, -1, 0, 1, 7, a * f - 1, a * f, a * f + 1, a * f + rng.randint(2, 150)])
            u = a if kind == "dta" else a * f * s["unit_time"] // 60      # departure intervals (two classes: minutes)
            k = rng.choice([0, 0, 0, 1, u // 2, u - 1])
            s["first"] = max(0, min(k, u - 1))
            if s["first"]:
                s["conf"] = dict(s.get("conf", {}), start_assign_interval=s["first"])
            if rng.random() < 0.3:     # nothing to release at the end, in the middle or at all
                z = rng.choice([range(a), [a - 1], [0], [rng.randrange(a)]])
                for r in s["demand"]:
                    for v in r[2:]:
                        for j in z:
                            v[j] = 0.0
        out += wl.chunks(ss, 3)
    return out


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i), i)


def one(ctx, s, d, i):
    mc = s["kind"] == "mcdta"
    o = ctx.load(s, d)
    ctx.sig("%s %d %d" % (wl.shape(s), s["total_interval"], s["first"]))
    segs = ctx.mon.segments()
    T = o.get_cur_loading_interval()
    tot = s["total_interval"]
    unit = s["unit_time"]
    freq = s["assign_frq"] if not mc else 60 // unit
    A = s["max_interval"] if not mc else s["max_interval"] * (s["assign_frq"] // freq)
    need = (A - s["first"]) * freq
    if segs:
        seg = segs[0]
        ticks = [c[0] for c in seg.count]
        ctx.expect(ticks == list(range(T)), lambda: "the intervals simulated are not 0..%d once each: %s" % (T - 1, ticks[:20]))
        ctx.count("intervals", len(ticks))
        alive = np.zeros(T + 1, int)
        for v in seg.veh.values():
            alive[v.seen + 1 if v.seen + 1 <= T else T] += 1
            if v.gone is not None:
                alive[min(T, v.gone + 1)] -= 1
        alive = alive.cumsum()                          # under way after t intervals
        if tot > 0:
            ctx.expect(T == max(tot, need), lambda: "horizon %d, departures until %d: the loading took %d intervals" % (tot, need, T))
        else:
            lo = max(1, need)
            stop = [t for t in range(lo, T + 1) if alive[t] == 0]
            ctx.expect(T >= lo and stop[:1] == [T], lambda: "departures until %d, first empty afterwards at %s: the loading took %d intervals" % (need, stop[:1], T))
        # departures
        want = C03.schedule(s)
        got = {}
        for v in seg.veh.values():
            q = s["first"] + v.start // freq
            ctx.expect(v.start == v.seen and v.start % freq == 0 and q < A, lambda: "a vehicle departs at interval %d, after the last departure interval or not at the start of one" % v.start)
            k = (v.o, v.d, v.cls, v.start)
            got[k] = got.get(k, 0) + 1
        for k, w in want.items():
            for t, x in w.items():
                g = got.pop(k + (t,), 0)
                ctx.expect(math.floor(x + 1e-9) <= g <= math.ceil(x - 1e-9), lambda: "from %d to %d, class %d, interval %d: %d vehicles depart, expected %.2f (first departure interval %d)" % (
                    k + (t, g, x, s["first"])))
                ctx.count("departure counts")
        ctx.expect(not got, lambda: "departures that nothing asks for: %s" % list(got.items())[:3])
    ref = C09.digest(ctx, s, o)
    # the vehicles may be dropped after the loading
    if i == 0:
        o.delete_all_agents()
        fs = [o.get_link_in_cc, o.get_link_out_cc] if not mc else [o.get_car_link_in_cc, o.get_car_link_out_cc, o.get_truck_link_in_cc, o.get_truck_link_out_cc]
        names = ["in", "out"] if not mc else ["cin", "cout", "tin", "tout"]
        for nm, f in zip(names, fs):
            for l in s["links"]:
                h = hashlib.sha256(np.ascontiguousarray(f(l[0])).tobytes()).hexdigest()[:16]
                ctx.expect(h == ref["%s %d" % (nm, l[0])], lambda: "deleting the vehicles changed the curve %s of link %d" % (nm, l[0]))
        ctx.expect(o.get_cur_loading_interval() == T, "deleting the vehicles changed the number of intervals")
        ctx.count("vehicles deleted")
    del o
    # printing does not change anything
    if i == 1:
        o = ctx.build(s, d)
        ctx.mon.reset()
        from macposts.utils import silence
        with silence():
            o.run_whole(True)
        C09.compare(ctx, s, ref, C09.digest(ctx, s, o), "with progress printed")
        ctx.count("printed")
        del o
    # following vehicles (with nothing to be written) is the same loading
    if mc and i == 2:
        o = ctx.build(s, d)
        ctx.mon.reset()
        o.run_whole_vehicle_tracking(False, ctx.tmp, 0.5, 0)
        ctx.expect(o.get_cur_loading_interval() == T, lambda: "%d intervals, with vehicles tracked %d" % (T, o.get_cur_loading_interval()))
        C09.compare(ctx, s, ref, C09.digest(ctx, s, o), "with vehicles tracked")
        ctx.count("tracked")
