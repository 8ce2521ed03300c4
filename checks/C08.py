import random

import numpy as np
import net
import wl
from heapq import heappush, heappop

RULE = ("one evaluation = 3 scenarios with en-route choice; every turn of every adaptive vehicle is compared "
        "with an independent shortest-path computation over the travel times the monitor saw; "
        "distinct = different scenario shapes")
ASSUMPTIONS = ["link travel times observed through the same per-link estimate the statistics record uses",
               "a turn is accepted when it is within 1e-3 s (generalised) of the best"]
TIMEOUT = 90


def add_tolls(s, rng):
    rows = []
    for l in s["links"]:
        if rng.random() < 0.4:
            rows.append((l[0], rng.choice([0.25, 0.5, 1, 1.5, 3])))
    if not rows:
        rows.append((s["links"][0][0], 1.5))
    s["tolls"] = dict((str(a), b) for a, b in rows)
    if s["kind"] == "dta":
        txt = "# link toll\n" + "".join("%d %s\n" % r for r in rows)
    else:
        txt = "# link toll_car toll_truck\n" + "".join("%d %s %s\n" % (a, b, b + 1) for a, b in rows)
    s.setdefault("files", {})["MNM_input_link_toll"] = txt
    s.setdefault("conf", {})["num_of_tolled_link"] = len(rows)


def gen(tier, seed):
    n = 300 if tier == "quick" else 1200
    out = []
    for kind, k in (("dta", n), ("mcdta", n // 2)):
        var = [dict(routing="Adaptive"), dict(routing="Adaptive", tight=True, load=60),
               dict(routing="Hybrid", adaptive_ratio=0.6), dict(routing="Adaptive", vot=5.0),
               dict(routing="Adaptive", vot=60.0, route_frq=1), dict(routing="Adaptive", inner=8, load=60, tight=True),
               dict(routing="Adaptive", parallel=True, load=60)]
        if kind == "mcdta":
            var.append(dict(routing="Biclass_Hybrid", adaptive_ratio_car=1, adaptive_ratio_truck=0.5))
        ss = wl.scenarios(seed, k, kind, "C08", var)
        for i, s in enumerate(ss):
            rng = random.Random("C08t/%s/%d/%d" % (kind, seed, i))
            s["stat"] = dict(rec_mode_para=rng.choice([1, 1, 3, s["assign_frq"]]))
            if rng.random() < 0.6:
                add_tolls(s, rng)
        out += wl.chunks(ss, 3)
    return out


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def dists(s, cost, dest):
    rev = {}
    for l in s["links"]:
        rev.setdefault(l[2], []).append((l[1], l[0]))
    D = {dest: 0.0}
    q = [(0.0, dest)]
    while q:
        d, n = heappop(q)
        if d > D.get(n, 1e30):
            continue
        for m, l in rev.get(n, []):
            e = d + cost[l]
            if e < D.get(m, 1e30) - 1e-15:
                D[m] = e
                heappush(q, (e, m))
    return D


def one(ctx, s, d):
    ctx.load(s, d, flags=3)
    ctx.sig(wl.shape(s))
    segs = ctx.mon.segments()
    if not segs:
        return
    seg = segs[0]
    n = s["stat"]["rec_mode_para"]
    frq = s["route_frq"]
    vot = (20.0 if s.get("vot") is None else s["vot"]) / 3600.0
    T = seg.count[-1][0] + 1
    lk = {l[0]: l for l in s["links"]}
    tt = {l: np.zeros(T) for l in lk}
    empty = {}
    for r in seg.link.tolist():
        tt[r[2]][r[1]] = r[8] / 1e6
    for l in lk.values():
        length = l[4]
        if l[3] == "CTM" and s["kind"] == "mcdta":
            # the two-class cell model stretches links shorter than one cell
            length = max(length, l[5] * s["unit_time"] / 3600.0)
        empty[l[0]] = length / l[5] * 3600.0
    tolls = s.get("tolls", {})
    memo = {}

    def costs(u):
        if u not in memo:
            if u == 0:
                c = dict(empty)
            else:
                r = (u - 1) // n * n
                c = {}
                for l in lk:
                    c[l] = tt[l][0] if r == 0 else tt[l][r - n + 1:r + 1].mean()
            memo[u] = ({l: c[l] * vot + tolls.get(str(l), 0.0) for l in lk}, {})
        return memo[u]

    for v in seg.veh.values():
        if v.type != 0:
            continue
        for t, l in v.links():
            u = t // frq * frq
            c, cache = costs(u)
            if v.d not in cache:
                cache[v.d] = dists(s, c, v.d)
            D = cache[v.d]
            a, b = lk[l][1], lk[l][2]
            got = c[l] + D.get(b, 1e30)
            best = D.get(a, 1e30)
            ctx.expect(got <= best + 1e-3 * vot + 1e-9,
                       lambda: "vehicle %d to node %d took link %d at interval %d costing %.6f onwards, the best turn at node %d costs %.6f"
                       % (v.id, v.d, l, t, got, a, best))
            ctx.count("turns")
            if sum(1 for x in s["links"] if x[1] == a) > 1:
                ctx.count("real_choices")
