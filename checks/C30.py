"""Multimodal statistics records, and en-route choice of travellers by them."""
import importlib.util
import os
import random
from heapq import heappush, heappop

import numpy as np

import mmor
from sim import step_curve

RULE = ("one evaluation = 2 random multimodal networks with en-route travellers; every number of the statistics files is "
        "recomputed from what the monitor saw, and every turn of every en-route car, truck, park-and-ride car and passenger is "
        "compared with an independent shortest-path computation over the recorded times; distinct = network shapes")
ASSUMPTIONS = ["the row labelled -1 is the empty network", "trucks and buses are timed with the times of cars",
               "a turn is accepted when it is within 1e-3 s (generalised) of the best",
               "a passenger in a bus decides once between the bus' arrival at a stop and its departure"]
TIMEOUT = 120
A = dict(adaptive_ratio_passenger=1, adaptive_ratio_car=1, adaptive_ratio_truck=1)
VAR = [dict(A), dict(A, tight=True, load=60, inner=8), dict(A, explicit_bus=0, pload=20), dict(A, routes=3, load=30, inner=6, pload=20),
       dict(adaptive_ratio_passenger=0.5, adaptive_ratio_car=0.5, adaptive_ratio_truck=0.3, tight=True, load=30),
       dict(A, explicit_bus=0, tight=True, load=60, routes=3), dict(A, routes=3, walk_all=0.6, inner=7, lot_prob=1, nD=3)]


def mod(name):
    sp = importlib.util.spec_from_file_location(name, os.path.join(os.path.dirname(os.path.abspath(__file__)), name + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def gen(tier, seed):
    n = 240 if tier == "quick" else 2400
    ss = mod("C23").scenarios(seed, n, "C30", VAR)
    toll = mod("C08").add_tolls
    for i, s in enumerate(ss):
        rng = random.Random("C30t/%d/%d" % (seed, i))
        s["stat"] = dict(rec_mode_para=rng.choice([1, 1, 3, 5, s["assign_frq"]]), tt_load_automatic_rec=1,
                         volume_load_automatic_rec=rng.randint(0, 1), volume_record_automatic_rec=rng.randint(0, 1),
                         tt_record_automatic_rec=rng.randint(0, 1))
        s["route_frq"] = rng.choice([1, 3, s["assign_frq"]])
        s["vot"] = rng.choice([5.0, 20.0, 60.0])
        if rng.random() < 0.6:
            toll(s, rng)
    return [dict(scens=ss[i:i + 2]) for i in range(0, len(ss), 2)]


def run(ctx, case):
    C = mod("C23")
    for i, s in enumerate(case["scens"]):
        d = ctx.write(s, "n%d" % i)
        o = C.load(ctx, s, d)
        ctx.sig(C.shape(s))
        T = o.get_cur_loading_interval()
        came = {l["id"]: step_curve(o.get_bus_link_from_busstop_in_cc(l["id"]), T) for l in s["mm"]["tl"] if l["kind"] == "bus"}
        del o
        if not ctx.mon.mm:
            return
        for seg in ctx.mon.segments():
            h = mmor.MM(s, seg)
            files(ctx, s, d, T, h, came)
            turns(ctx, s, d, T, seg, h)


def read(ctx, d, name, ids, T, rows=None):
    fn = os.path.join(d, "record", name)
    if not ctx.expect(os.path.exists(fn), "%s is missing" % name):
        return None
    head, ts, m = mod("C14").table(ctx, fn, ids)
    want = rows if rows is not None else list(range(-1, T))
    if not ctx.expect(ts == want, lambda: "%s: intervals %s..., expected %s..." % (name, ts[:6], want[:6])):
        return None
    return {l: m[:, c] for c, l in enumerate(head)}


def mean(v, t, n):
    """What is on record after interval t, from the values at the ends of intervals -1, 0, 1, ..."""
    return v[t + 1] if t <= 0 else v[t + 2 - n:t + 2].mean()


def files(ctx, s, d, T, h, came):
    mod("C14").files(ctx, s, d, T, h)
    n = s["stat"]["rec_mode_para"]
    car = read(ctx, d, "MNM_output_load_interval_tt", [l[0] for l in s["links"]], T)
    m = s["mm"]
    got = read(ctx, d, "MNM_output_load_interval_tt_bus_transit", [l["id"] for l in m["tl"]], T)
    if car is None or got is None:
        return
    at = {v[0]: h.phys[v[1]] for v in m["virt"]}
    for l in m["tl"]:
        ok = np.ones(T + 1, bool)
        if l["kind"] != "bus":
            e = np.full(T + 1, l["time"] + (m["hist"] * s["unit_time"] if l["kind"] == "boarding" else 0.0))
        else:
            a, b = at[l["a"]], at[l["b"]]
            e = np.zeros(T + 1)
            for x in l["over"]:
                k = h.links[x]
                ln = max(k[4], k[5] * s["unit_time"] / 3600.0) if k[3] == "CTM" else k[4]
                e += car[x] * (((b[2] if x == b[1] else ln) - (a[2] if x == a[1] else 0.0)) / ln)
            line = h.routes[l["route"]]
            tot = sum(sum(int(y * s["flow_scalar"] + 1e-9) for y in mmor.split(s, x).values()) for x in line["demand"]) / s["flow_scalar"]
            # once the last bus has come (and on lines run by timetable alone) no time is specified
            ok = (came[l["id"]] < min(tot, round(tot)) - 1e-6) & bool(m["explicit"])
        diff = np.where(ok, np.abs(got[l["id"]] - e) - 2e-3 - 1e-4 * np.abs(e), -1)
        k = int(np.argmax(diff))
        ctx.expect(diff[k] <= 0, lambda: "recorded time of %s link %d at %d: %.6f, expected %.6f" % (l["kind"], l["id"], k - 1, got[l["id"]][k], e[k]))
        ctx.count("transit_numbers", int(ok.sum()))
    if s["stat"]["tt_record_automatic_rec"]:
        rows = [t for t in range(-1, T) if t == 0 or t % n == 0]
        r = read(ctx, d, "MNM_output_record_interval_tt_bus_transit", [l["id"] for l in m["tl"]], T, rows)
        for l in r or []:
            for t, x in zip(rows, r[l]):
                e = mean(got[l], t, n)
                ctx.expect(abs(x - e) < 1e-4 + 1e-6 * e, lambda: "mean time of transit link %d on record at %d: %.6f, expected %.6f" % (l, t, x, e))
            ctx.count("transit_means", len(rows))


def dists(links, cost, dest):
    rev = {}
    for l, a, b in links:
        rev.setdefault(b, []).append((a, l))
    D = {dest: 0.0}
    q = [(0.0, dest)]
    while q:
        d, n = heappop(q)
        if d > D.get(n, 1e30):
            continue
        for m, l in rev.get(n, []):
            e = d + cost[l]
            if e < D.get(m, 1e30) - 1e-15:
                D[m] = e
                heappush(q, (e, m))
    return D


def turns(ctx, s, d, T, seg, h):
    car = read(ctx, d, "MNM_output_load_interval_tt", [l[0] for l in s["links"]], T)
    tra = read(ctx, d, "MNM_output_load_interval_tt_bus_transit", [l["id"] for l in s["mm"]["tl"]], T)
    if car is None or tra is None:
        return
    n, frq = s["stat"]["rec_mode_para"], s["route_frq"]
    vot = s["vot"] / 3600.0
    toll = {int(a): b for a, b in s.get("tolls", {}).items()}
    roads = [(l[0], l[1], l[2]) for l in s["links"]]
    ways = [(l["id"], l["a"], l["b"]) for l in s["mm"]["tl"]]
    ends = {True: {l: (a, b) for l, a, b in roads}, False: {l: (a, b) for l, a, b in ways}}
    memo = {}

    def tree(drive, t, dest):
        """Costs and distances in force at interval t."""
        u = t // frq * frq
        r = -1 if u == 0 else (u - 1) // n * n
        if (drive, r) not in memo:
            src = car if drive else tra
            memo[drive, r] = ({l: mean(v, r, n) * vot + (toll.get(l, 0.0) if drive else 0.0) for l, v in src.items()}, {})
        c, D = memo[drive, r]
        if dest not in D:
            D[dest] = dists(roads if drive else ways, c, dest)
        return c, D[dest]

    def off(drive, t, dest, l):
        c, D = tree(drive, t, dest)
        a, b = ends[drive][l]
        return c[l] + D.get(b, 1e30) - D.get(a, 1e30)

    tol = 1e-3 * vot + 2e-5
    lots = [q["node"] for q in s["mm"]["lots"]]
    for v in seg.veh.values():
        k = mmor.kind(v)
        if v.type != 0 or k == "bus":
            continue
        for l, t, _ in h.visits[v.id]:
            goals = [v.d] if k != "pnr" else [q for q in lots if q != v.d and tree(False, t, v.d)[1].get(q, 1e30) < 1e29
                                              and tree(True, t, q)[1].get(ends[True][l][0], 1e30) < 1e29]
            best = min([off(True, t, g, l) for g in goals] or [1e30])
            ctx.expect(best <= tol, lambda: "%s %d to node %d (heading for %s) took link %d at %d, which costs %.6f more than the best turn"
                       % (k, v.id, v.d, goals, l, t, best))
            ctx.count("turns_" + k)
            if sum(1 for x in roads if x[1] == ends[True][l][0]) > 1:
                ctx.count("real_choices")
    tl = h.tl
    for p in seg.pax.values():
        if p.type != 0:
            continue
        last = None
        for l, t, _ in h.walks[p.id]:
            if last is None or tl[last[0]]["kind"] != "boarding":
                first = t
                if last is not None and tl[last[0]]["kind"] == "bus" and s["mm"]["explicit"]:
                    first = last[1]
                best = min(off(False, x, p.d, l) for x in {y // frq * frq for y in range(first, t + 1)})
                ctx.expect(best <= tol, lambda: "passenger %d to node %d left %s for transit link %d (%s) at %d, which costs %.6f more than the best way"
                           % (p.id, p.d, last, l, tl[l]["kind"], t, best))
                ctx.count("turns_passenger")
                if sum(1 for x in ways if x[1] == tl[l]["a"]) > 1:
                    ctx.count("real_passenger_choices")
            last = (l, t)
