"""Multimodal travel times, distances and costs follow from the recorded curves, the timetable and the prices."""
import importlib.util
import math
import os
import random

import numpy as np

import mmor
from sim import step_curve

RULE = ("one evaluation = 2 random multimodal networks; every link time, speed, path time, distance and cost is recomputed from the "
        "curves and the prices; distinct = different (network size, lines, lots, explicit or scheduled buses, scalar, demand split)")
ASSUMPTIONS = ["the curves themselves are judged by C25", "the loading is at least as long as the demand",
               "from the arrival of the last bus on the answer may be that there is no bus"]
TIMEOUT = 120
HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


VAR = [dict(), dict(explicit_bus=0, pload=20), dict(pload=40, bus_capacity=3), dict(flow_scalar=1, pload=20, bus_levels=[1, 2]),
       dict(tight=True, load=60, pickup=[30, 60]), dict(routes=3, load=30, max_interval=4), dict(explicit_bus=0, tight=True, load=60),
       dict(flow_scalar=3, bus_levels=[1, 2], routes=3, tight=True, load=30), dict(load=30, lot_time=[30.0, 120.0])]


def gen(tier, seed):
    n = 360 if tier == "quick" else 3000
    ss = mod("C23").scenarios(seed, n, "C27", VAR)
    for i, s in enumerate(ss):
        rng = random.Random("C27t/%d/%d" % (seed, i))
        s["mmdue"] = dict(vot=rng.choice([10, 20, 36]), early_penalty=rng.choice([0, 10, 12]), late_penalty=rng.choice([15, 40]),
                          target_time=rng.choice([1, 5, 15, 40]), parking_lot_to_destination_walking_time=rng.choice([0, 60, 62]),
                          carpool_cost_multiplier=3, bus_fare=rng.choice([2, 2.5]), pnr_inconvenience=rng.choice([0, 1.25]), bus_inconvenience=rng.choice([0, 0.75]))
        if rng.random() < 0.6:
            t = {l[0]: round(rng.uniform(0, 3), 2) for l in s["links"] if rng.random() < 0.5}
            if t:
                s["tolls"] = {str(k): v for k, v in t.items()}
                s.setdefault("files", {})["MNM_input_link_toll"] = "#link toll\n" + "".join("%d %s %s\n" % (k, v, round(v * 1.7, 3)) for k, v in t.items())
                s["conf"] = dict(s.get("conf", {}), num_of_tolled_link=len(t))
    return [dict(scens=ss[i:i + 2]) for i in range(0, len(ss), 2)]


def run(ctx, case):
    base, c12 = mod("C23"), mod("C12")
    for i, s in enumerate(case["scens"]):
        one(ctx, base, c12, s, ctx.write(s, "n%d" % i))


class Stop:
    """Arrivals and departures at a stop in whole buses."""

    def __init__(self, arr, dep, k):
        self.a, self.d = (np.rint(x * k).astype(int) for x in (arr, dep))
        self.k = k

    def arrival(self, n):
        i = int(np.searchsorted(self.a, n * self.k))
        return i if i < len(self.a) else None


def bus_times(p, q, t, T):
    """(wait, ride) of somebody at the first stop at tick *t*, and whether the answer may also be that there is none;
    (None, None) when there is no bus."""
    k = p.k
    t = min(t, T)
    n0 = int(p.a[t]) // k
    last = int(p.d[T]) // k
    both = False
    if n0 >= 1 and p.d[t] < p.a[t]:
        if p.a[t] % k == 0:
            n, w = n0, 0
        else:
            a = p.arrival(n0)
            if p.a[a] == n0 * k:
                n, w = n0 + 1, None
            else:
                n, w = n0, 0                  # came together with a part of the next
    else:
        n, w = n0 + 1, None
    if w is None:
        a = p.arrival(n)
        if a is None:
            return None, None, True
        w = a - t
    reached = int(q.a[T]) // k
    lastarr = p.arrival(last) if last else 0
    nextarr = p.arrival(reached) if reached else 0
    if last == 0 or reached == 0:
        return None, None, True
    if t + 1 > lastarr or t + w > nextarr or t + w > lastarr:
        both = True
    level = p.a[t + w]
    e = int(np.searchsorted(q.a, level))
    if n > last or n > reached or e > T:
        both = True
        if e > T:
            return None, None, True
    return w, e - t - w, both


def one(ctx, base, c12, s, d):
    rng = random.Random("C27/%d" % s["seed"])
    ctx.mon.config(1)
    ctx.mp.set_random_state(s["seed"] % (2 ** 31))
    o = ctx.mp.Mmdta.from_files(d)
    m = s["mm"]
    u = float(s["unit_time"])
    k = s["flow_scalar"]
    L = {l[0]: l for l in s["links"]}
    TL = {l["id"]: l for l in m["tl"]}
    reg = dict(driving=rng.sample(list(L), len(L)), bus=[i for i in TL if TL[i]["kind"] == "bus"], walking=[i for i in TL if TL[i]["kind"] != "bus"])
    for x in reg:
        rng.shuffle(reg[x])
        if reg[x]:
            getattr(o, "register_links_" + x)(np.array(reg[x]))
    bd = sorted({x for l in reg["bus"] for x in TL[l]["over"]})
    rng.shuffle(bd)
    if bd:
        o.register_links_bus_driving(np.array(bd))
    o.install_cc()
    o.install_cc_tree()
    ctx.mon.reset()
    o.run_whole(False)
    ctx.sig(base.shape(s))
    T = o.get_cur_loading_interval()
    starts = sorted(set([0, T - 1] + [rng.randint(0, T - 1) for _ in range(20)]))
    S = np.array(starts, dtype=float)
    s2 = dict(s, kind="mcdta")
    truck = {}
    tab = {}
    for cls, name in ((0, "car"), (1, "truck")):
        G = {l: c12.Link(s2, L[l], cls) for l in L}
        cin = {l: c12.Curve(getattr(o, "get_%s_link_in_cc" % name)(l)) for l in L}
        cout = {l: c12.Curve(getattr(o, "get_%s_link_out_cc" % name)(l)) for l in L}

        def tt(l, st, G=G, cin=cin, cout=cout):
            return c12.travel(cin[l], cout[l], st + 1, T, G[l].ff)

        def capped(v, l, inf, G=G):
            b = 20.0 * G[l].len / G[l].ffs
            return {y for x in (z * u for z in v) for y in ([x] if x <= b * (1 - 1e-9) else [math.inf if inf else b] if x > b * (1 + 1e-9) else [x, b] + [math.inf] * inf)}

        f = np.asarray(getattr(o, "get_%s_link_fftt" % name)(np.array(reg["driving"])))
        for i, l in enumerate(reg["driving"]):
            if ctx.expect(c12.ok(f[i], {x * u for x in G[l].ff}), lambda: "%s free-flow time of link %d (%s): %g s, expected %s" % (name, l, L[l][3], f[i], G[l].ff)):
                G[l].ff = {x for x in G[l].ff if abs(x * u - f[i]) < 1e-6}
        for fn, ids in (("get_%s_link_tt" % name, reg["driving"]), ("get_bus_driving_link_tt_%s" % name, bd)):
            if not ids:
                continue
            g = getattr(o, fn)
            for inf in (False, True):
                r = g(S, inf)
                ctx.expect(r.shape == (len(ids), len(starts)), "%s: shape %s" % (fn, r.shape))
                for i, l in enumerate(ids):
                    for j, st in enumerate(starts):
                        w = capped(tt(l, st), l, inf)
                        ctx.expect(c12.ok(r[i, j], w), lambda: "%s: link %d (%s) entered at %d: %.9g s, the curves say %s" % (fn, l, L[l][3], st, r[i, j], sorted(w)))
                        ctx.count("travel_times")
            refused(ctx, g, np.array([float(T)]), False)
            mean(ctx, rng, getattr(o, fn + "_robust"), ids, T, lambda l, x: max(tt(l, x)), capped, u)
        r = getattr(o, "get_%s_link_speed" % name)(S)
        for i, l in enumerate(reg["driving"]):
            for j, st in enumerate(starts):
                w = {G[l].len / (x * u) * 3600 / 1600 for x in tt(l, st)}
                ctx.expect(c12.ok(r[i, j], w), lambda: "%s speed on link %d entered at %d: %.9g, expected %s" % (name, l, st, r[i, j], sorted(w)))
        refused(ctx, getattr(o, "get_%s_link_speed" % name), np.array([float(T)]))
        sel = [float(x) for x in rng.sample(starts, min(5, len(starts)))]
        sub = rng.sample(reg["driving"], min(5, len(L)))
        r = getattr(o, "get_path_tt_" + name)(np.array(sub), np.array(sel))
        for i, l in enumerate(sub):
            w = sum(max(capped(tt(l, x), l, False)) for x in sel) / len(sel)
            ctx.expect(abs(r[i] - w) < 1e-6 * max(1, w), lambda: "%s link %d: average travel time %.9g s over %s, expected %.9g" % (name, l, r[i], sel, w))
        refused(ctx, getattr(o, "get_path_tt_" + name), np.array(sub), np.array([float(T)]))
        tab[name] = lambda l, x, tt=tt: max(tt(l, min(x, T - 1)))
        truck[name] = tt
    # walking
    walk = {}
    for l in reg["walking"]:
        ff = round_f(TL[l]["time"]) / u + (m["hist"] if TL[l]["kind"] == "boarding" else 0)
        walk[l] = (c12.Curve(o.get_walking_link_in_cc(l)), c12.Curve(o.get_walking_link_out_cc(l)), {ff})
    wtt = lambda l, x: max(c12.travel(walk[l][0], walk[l][1], x + 1, T, walk[l][2]))
    if walk:
        r = o.get_passenger_walking_link_tt(S)
        for i, l in enumerate(reg["walking"]):
            for j, st in enumerate(starts):
                w = wtt(l, st) * u
                ctx.expect(abs(r[i, j] - w) < 1e-5 * max(1, w), lambda: "walking link %d (%s) entered at %d: %.9g s, the curves say %.9g" % (l, TL[l]["kind"], st, r[i, j], w))
                ctx.count("walking_times")
        f = o.get_walking_link_fftt(np.array(reg["walking"]))
        ctx.expect(np.allclose(f, [TL[l]["time"] for l in reg["walking"]], rtol=1e-6), "walking times %s differ from the input" % f)
        refused(ctx, o.get_passenger_walking_link_tt, np.array([float(T)]))
        mean(ctx, rng, o.get_passenger_walking_link_tt_robust, reg["walking"], T, wtt, None, u)
    # buses
    L3 = {l: c12.Link(s2, L[l], 0).len for l in L}
    stops = {}
    phys = {p[0]: p for p in m["phys"]}
    at = {v[0]: phys[v[1]] for v in m["virt"]}
    for l in reg["bus"]:
        for st, w in ((TL[l]["a"], "from"), (TL[l]["b"], "to")):
            if m["explicit"]:
                stops[st] = Stop(*[step_curve(getattr(o, "get_bus_link_%s_busstop_%s_cc" % (w, x))(l), T) for x in ("in", "out")], k=k)

    def bus(l, x, only):
        """Admissible times in intervals; None = no bus."""
        e = TL[l]
        if not m["explicit"]:
            ts = {float(x + 1 + (0 if only else m["hist"]))}
            for q in e["over"]:
                lo = at[e["a"]][2] * 1600.0 if q == at[e["a"]][1] else 0.0
                hi = at[e["b"]][2] * 1600.0 if q == at[e["b"]][1] else L3[q]
                # a time on the edge of an interval can fall on either side
                ts = {t + max(truck["truck"](q, t + h - 1)) * (hi - lo) / L3[q] for t in ts for h in (-1e-4, 0, 1e-4)}
            out = []
            for t in sorted(ts):
                if not out or t - x - 1 > out[-1] + 1e-6:
                    out.append(t - x - 1)
            return out
        w, ride, both = bus_times(stops[e["a"]], stops[e["b"]], x + 1, T)
        out = [None] if both else []
        if w is not None:
            out.append((ride if w == 0 else -1) if only else w + ride)
        return out

    if reg["bus"]:
        f = o.get_bus_link_fftt(np.array(reg["bus"]))
        ctx.expect(np.allclose(f, [TL[l]["time"] * 3600 for l in reg["bus"]], rtol=1e-5), "bus times %s differ from the input" % f)
        for inf in (False, True):
            none = math.inf if inf else 2.0 * T
            for only in (False, True):
                r = o.get_bus_link_tt(S, inf, only)
                v = o.get_bus_link_speed(S, inf, only)
                for i, l in enumerate(reg["bus"]):
                    for j, st in enumerate(starts):
                        w = [(none if x is None else x) * u for x in bus(l, st, only)]
                        ctx.expect(any(r[i, j] == x or abs(r[i, j] - x) < 1e-4 * max(1, abs(x)) for x in w),
                                   lambda: "bus link %d asked at %d (%s): %.9g s, the buses say %s" % (l, st, "ride" if only else "wait and ride", r[i, j], w))
                        ctx.count("bus_times")
                        if len(w) == 1 and w[0] < none * u:
                            ctx.count("bus_times_with_a_bus")
                        if r[i, j] > 0:
                            y = 0.0 if math.isinf(r[i, j]) else TL[l]["len"] * 3600 / r[i, j]
                            ctx.expect(abs(v[i, j] - y) < 1e-4 * max(1, y), lambda: "bus link %d asked at %d: speed %.9g, expected %.9g" % (l, st, v[i, j], y))
                # averages
                a = [float(rng.randint(0, T - 1)) for _ in range(3)]
                b = [float(rng.randint(int(x) + 1, T)) for x in a]
                n = rng.choice([1, 3, 10, 1000])
                r = o.get_bus_link_tt_robust(np.array(a), np.array(b), n, inf, only)
                for j in range(3):
                    c = int(b[j] - a[j]) if only else min(n, int(b[j] - a[j]))
                    pts = np.array([a[j] + q * (b[j] - a[j]) / c for q in range(c)])
                    one_ = o.get_bus_link_tt(pts, inf or only, only)
                    for i, l in enumerate(reg["bus"]):
                        x = one_[i]
                        if only and m["explicit"]:
                            x = x[np.isfinite(x) & (x > 0)]
                        w = x.mean() if len(x) else math.inf
                        ctx.expect(r[i, j] == w or abs(r[i, j] - w) < 1e-4 * max(1, abs(w)),
                                   lambda: "bus link %d over [%g, %g) with %d samples: %.9g s, the single times average %.9g" % (l, a[j], b[j], n, r[i, j], w))
                        ctx.count("bus_means")
        refused(ctx, o.get_bus_link_tt, np.array([float(T)]), True, False)
        refused(ctx, o.get_bus_link_speed, np.array([float(T)]), True, False)
        for x, y in ((0.0, 0.0), (float(T), T + 1.0), (0.0, T + 1.0)):
            refused(ctx, o.get_bus_link_tt_robust, np.array([x]), np.array([y]), 3, False, False)
    paths(ctx, rng, o, s, T, u, L, TL, tab, wtt, bus, starts, L3)


def round_f(x):
    return float(np.float32(x))


def mean(ctx, rng, f, ids, T, tt, capped, u):
    a = [float(rng.randint(0, T - 1)) for _ in range(3)]
    b = [float(rng.randint(int(x) + 1, T)) for x in a]
    n = rng.choice([1, 3, 10, 1000])
    inf = rng.random() < 0.5
    r = f(np.array(a), np.array(b), n, inf) if capped else f(np.array(a), np.array(b), n)
    for i, l in enumerate(ids):
        for j in range(3):
            c = min(n, int(b[j] - a[j]))
            v = sum(tt(l, a[j] + q * (b[j] - a[j]) / c) for q in range(c)) / c
            w = capped({v}, l, inf) if capped else {v * u}
            ctx.expect(any(r[i, j] == x or abs(r[i, j] - x) < 1e-5 * max(1, x) for x in w),
                       lambda: "%s: link %d over [%g, %g) with %d samples: %.9g s, the curves say %s" % (f.__name__, l, a[j], b[j], n, r[i, j], sorted(w)))
            ctx.count("mean_travel_times")
    for x, y in ((0.0, 0.0), (float(T), T + 1.0), (0.0, T + 1.0)):
        refused(ctx, f, np.array([x]), np.array([y]), 3, *([False] if capped else []))


def refused(ctx, f, *a):
    try:
        f(*a)
    except RuntimeError:
        ctx.count("refused_queries")
        return
    ctx.fail("%s%s was answered outside the loaded period" % (f.__name__, tuple(x.tolist() if hasattr(x, "tolist") else x for x in a)))


def paths(ctx, rng, o, s, T, u, L, TL, tab, wtt, bus, starts, L3):
    m = s["mm"]
    P = s["mmdue"]
    o.build_link_cost_map(rng.random() < 0.5)
    nd, nt, np_ = len(s["paths"]), len(m["bt_paths"]), len(m["pnr_paths"])
    sel = rng.sample(starts, min(6, len(starts)))
    S = np.array(sel, dtype=float)
    up = mod("C12").up
    segs = ctx.mon.segments()
    lots = segs[0].lots if segs and ctx.mon.mm else None
    lot = {q["node"]: q for q in m["lots"]}
    toll = {int(a): b for a, b in s.get("tolls", {}).items()}

    def cruise(q, t):
        """A set: the answer at every rounding."""
        if lots is None:
            return None
        occ = 0.0
        for a, _, c in lots.get(q["id"], []):
            if a + 1 <= min(t, T):
                occ = c
        x = q["time"] / u
        if t > 0:
            x = 10 * x if occ >= q["cap"] else x / (1 - occ / q["cap"])
        return {math.ceil(x - 1e-6), math.ceil(x + 1e-6)}

    def drive(links, t, name="car"):
        for l in links:
            t += up(tab[name](l, t))
        return t

    def ride(links, t):
        for l in links:
            x = min(t, T - 1)
            if TL[l]["kind"] == "bus":
                v = bus(l, x, not m["explicit"])
                v = [2.0 * T if y is None else y for y in v]
                if len({y if y > T else up(y) for y in v}) > 1:
                    return None               # either answer is right
                v = v[0]
            else:
                v = wtt(l, x)
            if v > T:
                return 2 * T
            t += up(v)
        return t

    def total(kind, p, st):
        """Arrival ticks that are right."""
        if kind == "driving":
            t = drive(p[2], st)
            q = lot.get(p[0][-1])
            c = cruise(q, t) if q else {0}
            return None if c is None else {t + x + math.ceil(P["parking_lot_to_destination_walking_time"] / u) - st for x in c}
        t = drive(p["dlinks"], st) if kind == "pnr" else st
        r = ride(p["links"], t)
        if r is None:
            return None
        if r == 2 * T and trapped(p["links"], t):
            return {t - st + 2 * T}
        return {r - st}

    def trapped(links, t):
        for l in links:
            x = min(t, T - 1)
            v = [2.0 * T if y is None else y for y in bus(l, x, not m["explicit"])][0] if TL[l]["kind"] == "bus" else wtt(l, x)
            if v > T:
                return True
            t += up(v)
        return False

    def price(kind, p, st, tt):
        w = st + tt - P["target_time"] * 60 / u
        c = P["vot"] / 3600 * u * tt + max(P["late_penalty"] / 3600 * u * w, -P["early_penalty"] / 3600 * u * w)
        if kind == "driving":
            q = lot.get(p[0][-1])
            return c + (q["price"] * q["surge"] if q else 8.0) + sum(toll.get(l, 0.0) for l in p[2])
        c += P["bus_fare"] + P["bus_inconvenience" if kind == "bustransit" else "pnr_inconvenience"]
        return 1e3 * c if tt > T else c

    def length(kind, p):
        n = 0.0
        if kind != "bustransit":
            n += sum(L3[l] for l in (p[2] if kind == "driving" else p["dlinks"]))
        if kind != "driving":
            for l in p["links"]:
                if TL[l]["kind"] == "bus":
                    n += TL[l]["len"] * 1600
                elif TL[l]["kind"] == "normal":
                    n += TL[l]["time"] * 1.5
        return n / 1600

    for kind, ps, off in (("driving", s["paths"], 0), ("bustransit", m["bt_paths"], nd), ("pnr", m["pnr_paths"], nd + nt)):
        if not ps:
            continue
        ids = rng.sample(range(len(ps)), len(ps))
        getattr(o, "register_paths_" + kind)(np.array([off + i for i in ids]))
        tt = getattr(o, "get_registered_path_tt_" + kind)(S)
        cost = getattr(o, "get_registered_path_cost_" + kind)(S)
        dist = np.asarray(getattr(o, "get_registered_path_distance_" + kind)()).ravel()
        ctx.expect(tt.shape == (len(ids), len(sel)) and cost.shape == tt.shape and len(dist) == len(ids), "%s paths: shapes %s %s %s" % (kind, tt.shape, cost.shape, dist.shape))
        tk = o.get_registered_path_tt_truck(S) if kind == "driving" else None
        for i, x in enumerate(ids):
            p = ps[x]
            w = length(kind, p)
            ctx.expect(abs(dist[i] - w) < 1e-4 * max(1, w), lambda: "%s path %d is %.9g miles long, expected %.9g" % (kind, off + x, dist[i], w))
            if kind == "driving":
                r = o.get_passenger_path_cost_driving(np.array(p[2]), S)
            elif kind == "bustransit":
                r = o.get_passenger_path_cost_bus(np.array(p["links"]), S)
            else:
                r = o.get_passenger_path_cost_pnr(np.array(p["dlinks"]), np.array(p["links"]), S)
            for j, st in enumerate(sel):
                w = total(kind, p, st)
                ctx.count("path_times")
                if w is not None:
                    ctx.expect(any(abs(tt[i, j] / u - y) < 1e-6 * max(1, y) for y in w),
                               lambda: "%s path %d at %d takes %.9g s, its parts take %s" % (kind, off + x, st, tt[i, j], sorted(y * u for y in w)))
                    ctx.count("path_times_judged")
                y = price(kind, p, st, tt[i, j] / u)
                ctx.expect(abs(cost[i, j] - y) < 1e-3 + 1e-4 * abs(y), lambda: "%s path %d at %d, %g s long, costs %.9g, expected %.9g" % (kind, off + x, st, tt[i, j], cost[i, j], y))
                c = r[2 if kind == "driving" else 1, j]
                ctx.expect(abs(r[0, j] - tt[i, j]) < 1e-6 * max(1, tt[i, j]) and abs(c - cost[i, j]) < 1e-6 * max(1, abs(c)),
                           lambda: "%s path %d at %d by its links: %.9g s, %.9g; by its number: %.9g s, %.9g" % (kind, off + x, st, r[0, j], c, tt[i, j], cost[i, j]))
                if kind == "driving":
                    y = (drive(p[2], st, "truck") - st) * u
                    ctx.expect(abs(tk[i, j] - y) < 1e-6 * max(1, y) and abs(r[1, j] - y) < 1e-6 * max(1, y),
                               lambda: "path %d at %d takes trucks %.9g s (by links %.9g), expected %.9g" % (off + x, st, tk[i, j], r[1, j], y))
            g, h = (o.link_seq_to_node_seq_driving, o.node_seq_to_link_seq_driving) if kind == "driving" else (o.link_seq_to_node_seq_bustransit, o.node_seq_to_link_seq_bustransit)
            ls = p[2] if kind == "driving" else p["links"]
            ns = [(L[ls[0]][1] if kind == "driving" else TL[ls[0]]["a"])] + [(L[l][2] if kind == "driving" else TL[l]["b"]) for l in ls]
            got = list(g(np.array(ls)))
            ctx.expect(got == ns, lambda: "links %s pass nodes %s, not %s" % (ls, ns, got))
            back = list(h(np.array(ns)))
            ok = all((L[b][1:3] if kind == "driving" else [TL[b]["a"], TL[b]["b"]]) == [x, y] for b, x, y in zip(back, ns, ns[1:])) and len(back) == len(ls)
            ctx.expect(ok, lambda: "nodes %s are joined by links %s, not %s" % (ns, ls, back))
        refused(ctx, getattr(o, "get_registered_path_tt_" + kind), np.array([float(T)]))
        refused(ctx, getattr(o, "get_registered_path_cost_" + kind), np.array([float(T)]))
