"""Travel statistics, queues, waiting times and spillback against the vehicle log."""
import random

import numpy as np
import oracle
import wl

RULE = ("one evaluation = 3 scenarios; the released vehicles, vehicle hours, en-route and queue series, mean waiting times and spillback flags are recomputed "
        "from the vehicles and queues the monitor saw at every interval; distinct = scenario shapes")
ASSUMPTIONS = ["spillback flags are judged when the occupancy is clearly above or below the jam density",
               "queue totals leave out point queues, as the code says"]
TIMEOUT = 120
SINGLE = wl.SINGLE + [dict(total_interval=70, load=60, tight=True), dict(ltypes=["LQ"], total_interval=90, load=90, tight=True)]
MULTI = wl.MULTI + [dict(total_interval=70, load=90, tight=True), dict(ltypes=["LQ"], tight=True, load=150, conv=3.0),
                    dict(ltypes=["CTM"], total_interval=90, tight=True, load=150, conv=3.0)]


def gen(tier, seed):
    n = 600 if tier == "quick" else 1500
    out = []
    for kind, var in (("dta", SINGLE), ("mcdta", MULTI)):
        out += wl.chunks(wl.scenarios(seed, n, kind, "C20", var), 3)
    return out


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def close(ctx, got, exp, what, tol=1e-6):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    if not ctx.expect(got.shape == exp.shape, lambda: "%s: shape %s, expected %s" % (what, got.shape, exp.shape)):
        return
    bad = np.argwhere(~(np.abs(got - exp) <= tol * (1 + np.abs(exp))))
    ctx.expect(len(bad) == 0, lambda: "%s: at %s reported %.9g, expected %.9g" % (what, bad[0].tolist(), got[tuple(bad[0])], exp[tuple(bad[0])]))
    ctx.count("numbers compared", got.size)


def one(ctx, s, d):
    mc = s["kind"] == "mcdta"
    rng = random.Random("C20/%d" % s["seed"])
    o = ctx.load(s, d, flags=3)
    ctx.sig(wl.shape(s))
    segs = ctx.mon.segments()
    if not segs:
        return
    seg = segs[0]
    T = o.get_cur_loading_interval()
    sc, unit = s["flow_scalar"], s["unit_time"]
    V = list(seg.veh.values())
    # vehicle hours: from the departure to the arrival, or to the end
    vht = [0.0, 0.0]
    num = [0, 0]
    done = 0.0
    for v in V:
        num[v.cls] += 1
        end = T if v.gone is None else v.gone
        vht[v.cls] += (end - v.start) * unit / 3600.0
        if v.gone is not None:
            done += v.gone - v.start
    st = np.array(o.get_travel_stats())
    fin = sum(v.gone is not None for v in V)
    if mc:
        close(ctx, st, [num[0] / sc, num[1] / sc, vht[0] / sc, vht[1] / sc], "travel statistics (cars, trucks, their hours)")
    else:
        close(ctx, st, [len(V) / sc, sum(vht) / sc, (len(V) - fin) / sc, fin / sc], "travel statistics (released, hours, en route, finished)")
    if seg.count:
        close(ctx, [seg.count[-1][4]], [done], "total travel time of the finished vehicles, in intervals")
    if not mc:
        return
    ids = sorted(l[0] for l in s["links"])
    col = {l: i for i, l in enumerate(ids)}
    L = {l[0]: l for l in s["links"]}
    r = seg.link
    F = np.zeros((T, len(ids), 2))      # waiting at the end of the link after each interval, per class
    N = np.zeros((T, len(ids), 2))
    inc = np.zeros((T, len(ids)))
    c = np.array([col[x] for x in r[:, 2]])
    F[r[:, 1], c, 0], F[r[:, 1], c, 1] = r[:, 10], r[:, 11]
    inc[r[:, 1], c] = r[:, 7]
    h = oracle.History(s, seg)
    out = np.zeros((T + 1, len(ids)))
    enter = np.zeros((len(ids), 2))
    for v in V:
        for l, a, b in h.visits[v.id]:
            enter[col[l], v.cls] += 1
            N[a:(T if b is None else b), col[l], v.cls] += 1
            if b is not None:
                out[b, col[l]] += 1
    q = np.zeros((T, len(ids)))          # still waiting after the junctions were served
    q[1:] = F[:-1].sum(axis=2)
    q -= out[:T]
    ctx.expect((q >= 0).all(), "more vehicles left a link than were waiting at its end")
    npq = np.array([L[l][3] != "PQ" for l in ids])
    enr = np.array([x[2] for x in seg.count], float)
    tot = q[:, npq].sum(axis=1)
    close(ctx, o.get_enroute_and_queue_veh_stats_agg(), np.stack([enr, tot, enr - tot], axis=1) / sc, "en-route and queuing vehicles per interval")
    pick = rng.sample(ids, rng.randint(1, len(ids)))
    tk = np.array([rng.randrange(T) for _ in range(20)] + [0, T - 1])
    close(ctx, o.get_queue_veh_each_link(np.array(pick), tk), q[tk][:, [col[l] for l in pick]].T / sc, "queue on each link")
    try:
        o.get_queue_veh_each_link(np.array(pick), np.array([T]))
        ctx.fail("the queue after the end of the loading was answered")
    except RuntimeError:
        pass
    reg = o.registered_links.tolist()
    k = [col[l] for l in reg]
    w = F.sum(axis=0) * unit / sc
    close(ctx, o.get_waiting_time_at_intersections(), w[k].sum(axis=1) / (enter[k].sum(axis=1) / sc + 1e-6), "mean waiting time at the end of links", 1e-4)
    close(ctx, o.get_waiting_time_at_intersections_car(), w[k][:, 0] / (enter[k][:, 0] / sc + 1e-6), "mean waiting time of cars", 1e-4)
    close(ctx, o.get_waiting_time_at_intersections_truck(), w[k][:, 1] / (enter[k][:, 1] / sc + 1e-6), "mean waiting time of trucks", 1e-4)
    sp = o.get_link_spillback()
    for i, l in enumerate(reg):
        x = L[l]
        if x[3] == "PQ":
            ctx.expect(sp[i] == 0, lambda: "point queue %d is reported to spill back" % l)
            continue
        ln = x[4] * 1600.0
        rj = x[7] / 1600.0
        if x[3] == "CTM":
            rj = min(rj, 400 / 1600.0)
            ln = max(ln, x[5] * 1600 / 3600.0 * unit)
        room = rj * x[8] * ln * sc
        occ = (N[:, col[l], 0] + N[:, col[l], 1] * x[12]).max() if T else 0
        low = (N[:, col[l], 0] + N[:, col[l], 1] * x[12] - inc[:, col[l]] * x[12]).max() if T else 0
        cells = 1 + (int(ln / (x[5] * 1600 / 3600.0 * unit)) if x[3] == "CTM" else 0)
        if occ < room - 1e-6:
            ctx.expect(sp[i] == 0, lambda: "link %d never held more than %g of %g car units but is reported to spill back" % (l, occ, room))
            ctx.count("links without spillback")
        elif low > room + cells:
            ctx.expect(sp[i] == 1, lambda: "link %d held %g car units, its storage is %g, but no spillback is reported" % (l, low, room))
            ctx.count("links with spillback")
