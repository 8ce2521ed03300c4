"""Multimodal records: curves, flows, queues and statistics against what the travellers did."""
import importlib.util
import os
import random

import numpy as np

import mmor
from sim import step_curve

RULE = ("one evaluation = 2 random multimodal networks; every cumulative curve of every link and stop and every statistic is "
        "recomputed from the vehicles and passengers the monitor saw; distinct = different (network size, lines, lots, "
        "explicit or scheduled buses, scalar, demand split)")
ASSUMPTIONS = ["well-formed inputs", "a bus that comes to a stop and leaves it within an interval is counted while it is on the link of the stop",
               "queue totals of vehicles leave out point queues, as the code says"]
TIMEOUT = 120
HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


VAR = [dict(), dict(explicit_bus=0, pload=20), dict(pload=40, bus_capacity=3), dict(flow_scalar=1, pload=20, bus_levels=[1, 2]),
       dict(tight=True, load=60, pickup=[30, 60]), dict(adaptive_ratio_passenger=0.5, adaptive_ratio_car=0.5, adaptive_ratio_truck=0.3),
       dict(tight=True, load=90, ltypes=["CTM"]), dict(routes=3, load=30), dict(mm_total=90, load=40, pload=30)]


def gen(tier, seed):
    n = 480 if tier == "quick" else 4000
    ss = mod("C23").scenarios(seed, n, "C25", VAR)
    return [dict(scens=ss[i:i + 2]) for i in range(0, len(ss), 2)]


def run(ctx, case):
    base = mod("C23")
    for i, s in enumerate(case["scens"]):
        one(ctx, base, s, ctx.write(s, "n%d" % i))


def close(ctx, got, exp, what, tol=1e-6):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    if not ctx.expect(got.shape == exp.shape, lambda: "%s: shape %s, expected %s" % (what, got.shape, exp.shape)):
        return
    bad = np.argwhere(~(np.abs(got - exp) <= tol * (1 + np.abs(exp))))
    ctx.expect(len(bad) == 0, lambda: "%s: at %s reported %.9g, expected %.9g" % (what, bad[0].tolist(), got[tuple(bad[0])], exp[tuple(bad[0])]))
    ctx.count("numbers_compared", got.size)


def register(o, s, rng):
    """Random subsets of the links, in random order."""
    m = s["mm"]

    def some(x):
        return rng.sample(x, rng.randint(1, len(x))) if x else []

    reg = dict(driving=some([l[0] for l in s["links"]]), bus=some([l["id"] for l in m["tl"] if l["kind"] == "bus"]),
               walking=some([l["id"] for l in m["tl"] if l["kind"] != "bus"]))
    o.register_links_driving(np.array(reg["driving"]))
    if reg["bus"]:
        o.register_links_bus(np.array(reg["bus"]))
    if reg["walking"]:
        o.register_links_walking(np.array(reg["walking"]))
    return reg


def one(ctx, base, s, d):
    rng = random.Random("C25/%d" % s["seed"])
    ctx.mon.config(3)
    ctx.mp.set_random_state(s["seed"] % (2 ** 31))
    o = ctx.mp.Mmdta.from_files(d)
    reg = register(o, s, rng)
    o.install_cc()
    ctx.mon.reset()
    o.run_whole(False)
    ctx.sig(base.shape(s))
    T = o.get_cur_loading_interval()
    want = max(s["total_interval"], s["max_interval"] * s["assign_frq"])
    ctx.expect(T == want, lambda: "%d intervals were loaded, %d asked for" % (T, want))
    curves = {}
    m = s["mm"]
    for l in s["links"]:
        for k in ("car", "truck"):
            curves[k, l[0]] = [step_curve(getattr(o, "get_%s_link_%s_cc" % (k, w))(l[0]), T) for w in ("in", "out")]
    for l in m["tl"]:
        f = ("get_bus_link_in_passenger_cc", "get_bus_link_out_passenger_cc") if l["kind"] == "bus" else ("get_walking_link_in_cc", "get_walking_link_out_cc")
        curves["pax", l["id"]] = [step_curve(getattr(o, x)(l["id"]), T) for x in f]
    for l in m["tl"]:
        if l["kind"] == "bus":
            for st, w in ((l["a"], "from"), (l["b"], "to")):
                c = [step_curve(getattr(o, "get_bus_link_%s_busstop_%s_cc" % (w, x))(l["id"]), T) for x in ("in", "out")]
                if ("stop", st) in curves:
                    close(ctx, c, curves["stop", st], "the curves of stop %d, asked by two links," % st, 0)
                curves["stop", st] = c
    for k, (a, b) in curves.items():
        for c in (a, b):
            ctx.expect(c[0] == 0 and (np.diff(c) >= -1e-12).all(), lambda: "%s %d: a curve does not start at zero or decreases" % k)
        ctx.expect((b <= a + 1e-6).all(), lambda: "%s %d: more left than came" % k)
    # queries that are read off the curves
    x = [rng.randint(0, T - 1) for _ in range(6)]
    y = [rng.randint(a + 1, T) for a in x]
    X, Y = np.array(x), np.array(y)
    stop_of = {l["id"]: (l["a"], l["b"]) for l in m["tl"] if l["kind"] == "bus"}
    for f, ids, key, w in (("get_link_car_inflow", reg["driving"], lambda l: ("car", l), 0), ("get_link_truck_inflow", reg["driving"], lambda l: ("truck", l), 0),
                           ("get_link_walking_passenger_inflow", reg["walking"], lambda l: ("pax", l), 0), ("get_link_bus_passenger_inflow", reg["bus"], lambda l: ("pax", l), 0),
                           ("get_link_bus_inflow", reg["bus"], lambda l: ("stop", stop_of[l][0]), 1), ("get_busstop_bus_inflow", reg["bus"], lambda l: ("stop", stop_of[l][1]), 0)):
        if not ids:
            continue
        g = getattr(o, f)
        close(ctx, g(X, Y), [[curves[key(l)][w][b] - curves[key(l)][w][a] for a, b in zip(x, y)] for l in ids], f)
        for a, b in ((0, 0), (T, T + 1), (0, T + 1)):
            try:
                g(np.array([a]), np.array([b]))
                ctx.fail("%s answered for [%d, %d) of %d intervals" % (f, a, b, T))
            except RuntimeError:
                ctx.count("refused_queries")
    for _ in range(15):
        t = float(rng.randint(0, T))
        l = rng.choice(s["links"])[0]
        q = rng.choice(m["tl"])["id"]
        close(ctx, [o.get_car_link_out_num(l, t), o.get_truck_link_out_num(l, t), o.get_passenger_link_out_num(q, t)],
              [curves[k][1][int(t)] for k in (("car", l), ("truck", l), ("pax", q))], "numbers that left links %d and %d by %g" % (l, q, t))
        sts = [k[1] for k in curves if k[0] == "stop"]
        if sts:
            st = rng.choice(sts)
            close(ctx, [o.get_bus_stop_arrival_num(st, t), o.get_bus_stop_departure_num(st, t)], [curves["stop", st][w][int(t)] for w in (0, 1)], "buses at stop %d by %g" % (st, t))
    segs = ctx.mon.segments()
    if not ctx.mon.mm or not segs:
        return
    seg = segs[0]
    h = mmor.MM(s, seg)
    for k, c in (("car", 0), ("truck", 1)):
        e = h.curves(c, lambda v: mmor.kind(v) != "bus")
        for l in e:
            for w in (0, 1):
                close(ctx, curves[k, l][w], e[l][w], "%s curve %s of link %d" % (k, ("in", "out")[w], l))
    e = h.transit_curves()
    for l in e:
        for w in (0, 1):
            close(ctx, curves["pax", l][w], e[l][w], "passenger curve %s of %s link %d" % (("in", "out")[w], h.tl[l]["kind"], l))
    if m["explicit"]:
        stops(ctx, s, seg, h, curves, T)
    stats(ctx, s, seg, h, o, reg, T, rng)


def stops(ctx, s, seg, h, curves, T):
    n = T + 1
    for (k, st), (a, b) in curves.items():
        if k != "stop":
            continue
        lo, hi, seen_out, at = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
        line = h.virt[st][2]
        link = h.phys[h.virt[st][1]][1]
        for v in seg.veh.values():
            if mmor.kind(v) != "bus" or v.bus != line:
                continue
            first = last = None
            cur = -1
            for t, stop, *_ in v.stops:
                if stop == st and cur != st:
                    first = t
                if cur == st and stop != st:
                    last = t
                cur = stop
            if cur == st and last is None and v.gone is not None:
                last = v.gone
            ent = [x for x in h.visits[v.id] if x[0] == link]
            if not ent:
                continue
            tin, tout = ent[0][1], ent[0][2]
            e = first if first is not None else tout
            if e is not None:
                lo[e + 1:] += 1
            hi[(first if first is not None else tin) + 1:] += 1
            if last is not None or tout is not None:
                seen_out[(last if last is not None else tout) + 1:] += 1
            if first is not None:
                at[first + 1:(last + 1 if last is not None else n)] += 1
        sc = s["flow_scalar"]
        ctx.expect((a >= lo / sc - 1e-6).all() and (a <= hi / sc + 1e-6).all(),
                   lambda: "stop %d: buses that came, by tick: %s reported, %s to %s observed" % ((st,) + worst(a, lo / sc, hi / sc)))
        ctx.expect((a - b >= at / sc - 1e-6).all(), lambda: "stop %d: more buses stand there than the curves have" % st)
        ctx.expect((b >= seen_out / sc - 1e-6).all(), lambda: "stop %d: buses that left, by tick: %s reported, %s or more observed" % ((st,) + worst(b, seen_out / sc, a)[:2]))
        ctx.count("stop_ticks", n)
        ctx.count("stops_exact", int((lo == hi).all()))


def worst(x, lo, hi):
    k = int(np.argmax(np.maximum(lo - x, x - hi)))
    return "%.6g (tick %d)" % (x[k], k), "%.6g" % lo[k], "%.6g" % hi[k]


def stats(ctx, s, seg, h, o, reg, T, rng):
    sc, unit = s["flow_scalar"], s["unit_time"]
    num = dict(car=0, pnr=0, truck=0, bus=0)
    tt = dict(car=0.0, truck=0.0, bus=0.0)
    enr = np.zeros(T)
    for v in seg.veh.values():
        k = mmor.kind(v)
        num[k] += 1
        end = T if v.gone is None else v.gone
        tt["car" if k == "pnr" else k] += (end - v.start) * unit / 3600.0
        enr[v.seen:end] += 1
    ptt = sum(((T if p.gone is None else p.gone) - p.start) * unit / 3600.0 for p in seg.pax.values())
    close(ctx, o.get_travel_stats(), np.array([num["car"], num["pnr"], num["truck"], num["bus"], len(seg.pax), tt["car"], tt["truck"], tt["bus"], ptt]) / sc,
          "travel statistics (cars, park-and-ride cars, trucks, buses, passengers; hours of cars, trucks, buses, passengers)")
    # queues and waiting of vehicles
    ids = sorted(l[0] for l in s["links"])
    col = {l: i for i, l in enumerate(ids)}
    L = {l[0]: l for l in s["links"]}
    r = seg.link
    F = np.zeros((T, len(ids), 2))
    c = np.array([col[x] for x in r[:, 2]])
    F[r[:, 1], c, 0], F[r[:, 1], c, 1] = r[:, 10], r[:, 11]
    out = np.zeros((T + 1, len(ids)))
    enter = np.zeros((len(ids), 2))
    bused = np.zeros(len(ids), dtype=bool)
    for v in seg.veh.values():
        for l, a, b in h.visits[v.id]:
            enter[col[l], v.cls] += 1
            bused[col[l]] |= mmor.kind(v) == "bus"
            if b is not None:
                out[b, col[l]] += 1
    q = np.zeros((T, len(ids)))
    q[1:] = F[:-1].sum(axis=2)
    q -= out[:T]
    ctx.expect((q >= 0).all(), "more vehicles left a link than were waiting at its end")
    npq = np.array([L[l][3] != "PQ" for l in ids])
    tot = q[:, npq].sum(axis=1)
    close(ctx, o.get_enroute_and_queue_veh_stats_agg(), np.stack([enr, tot, enr - tot], axis=1) / sc, "en-route and queuing vehicles per interval")
    pick = rng.sample(ids, rng.randint(1, len(ids)))
    tk = np.array([rng.randrange(T) for _ in range(20)] + [0, T - 1])
    close(ctx, o.get_queue_veh_each_link(np.array(pick), tk), q[tk][:, [col[l] for l in pick]].T / sc, "vehicles queuing on each link")
    k = np.array([col[l] for l in reg["driving"]])
    w = F.sum(axis=0) * unit / sc
    n = ~bused[k]                   # buses wait, but are no trucks: their links have no mean of trucks
    close(ctx, o.get_waiting_time_at_intersections()[n], (w[k].sum(axis=1) / (enter[k].sum(axis=1) / sc + 1e-6))[n], "mean waiting time at the end of links", 1e-4)
    close(ctx, o.get_waiting_time_at_intersections_car(), w[k][:, 0] / (enter[k][:, 0] / sc + 1e-6), "mean waiting time of cars", 1e-4)
    close(ctx, o.get_waiting_time_at_intersections_truck()[n], (w[k][:, 1] / (enter[k][:, 1] / sc + 1e-6))[n], "mean waiting time of trucks", 1e-4)
    # passengers
    walk = sorted(l["id"] for l in s["mm"]["tl"] if l["kind"] != "bus")
    wc = {l: i for i, l in enumerate(walk)}
    pe = np.zeros(T)
    pq = np.zeros((T, len(walk)))
    for p in seg.pax.values():
        pe[p.seen:(T if p.gone is None else p.gone)] += 1
        for i, (t, cur, nx, path, bus, places, where) in enumerate(p.moves):
            end = p.moves[i + 1][0] if i + 1 < len(p.moves) else (p.gone if p.gone is not None else T)
            if where == 6 and cur in wc and not (s["mm"]["explicit"] and h.tl[cur]["kind"] == "alighting"):   # gone when counted
                pq[t:end, wc[cur]] += 1
        if s["mm"]["explicit"]:
            for l, a, b in h.walks[p.id]:
                if b is not None and b < T and h.tl[l]["kind"] == "boarding":
                    pq[b, wc[l]] += 1          # counted before getting on
    ptot = pq.sum(axis=1)
    close(ctx, o.get_enroute_and_queue_passenger_stats_agg(), np.stack([pe, ptot, pe - ptot], axis=1) / sc, "en-route and waiting passengers per interval")
    pick = rng.sample(walk, rng.randint(1, len(walk)))
    close(ctx, o.get_queue_passenger_each_link(np.array(pick), tk), pq[tk][:, [wc[l] for l in pick]].T / sc, "passengers waiting on each link")
    for f, i in ((o.get_queue_veh_each_link, ids[0]), (o.get_queue_passenger_each_link, walk[0])):
        try:
            f(np.array([i]), np.array([T]))
            ctx.fail("a queue after the end of the loading was answered")
        except RuntimeError:
            ctx.count("refused_queries")
