import numpy as np
import oracle
import wl
from sim import step_curve

RULE = ("one evaluation = 4 random single-class scenarios loaded with the monitor attached; "
        "distinct = different (network size, routing, link models, scalar, demand pairs)")
ASSUMPTIONS = ["well-formed inputs whose links admit at least one vehicle per interval",
               "uncontrolled horizons are expected to drain: generated demand is finite"]
TIMEOUT = 60


def gen(tier, seed):
    n = 480 if tier == "quick" else 2400
    return [dict(ltm=LTM)] + wl.chunks(wl.scenarios(seed, n, "dta", "C01", wl.SINGLE), 4)


# a corridor with one link of the link-transmission model (see known_findings.json)
LTM = dict(kind="dta", unit_time=10, assign_frq=10, max_interval=1, total_interval=720, flow_scalar=1,
           nodes=[[1, "DMOND", 1.0], [2, "FWJ", 1.0], [3, "FWJ", 1.0], [4, "DMDND", 1.0]],
           links=[[1, 1, 2, "PQ", 1.0, 40, 20000, 99999, 2], [2, 2, 3, "LTM", 0.091, 15, 587.1, 180, 2],
                  [3, 3, 4, "PQ", 0.25, 20, 20000, 200, 1]],
           origins=[[1, 1]], dests=[[1, 4]], demand=[[1, 1, [5.0]]], routing="Fixed", route_frq=12,
           fixed_route_frq=12, init_demand_split=0, seed=7, paths=[[[1, 2, 3, 4], [1.0], [1, 2, 3]]])


def run(ctx, case):
    if "ltm" in case:
        o = ctx.load(case["ltm"])
        ctx.sig("ltm")
        ctx.expect(o.get_travel_stats()[3] == 5, "LTM link: of 5 vehicles, some are still en route after two hours")
        return
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def one(ctx, s, d):
    o = ctx.load(s, d, flags=1)
    ctx.sig(wl.shape(s))
    T = o.get_cur_loading_interval()
    st = o.get_travel_stats()
    sc = s["flow_scalar"]
    cin = {l[0]: step_curve(o.get_link_in_cc(l[0]), T) for l in s["links"]}
    cout = {l[0]: step_curve(o.get_link_out_cc(l[0]), T) for l in s["links"]}
    oracle.node_balance(ctx, s, cin, cout, "single")
    onodes = {n for _, n in s["origins"]}
    dnodes = {n for _, n in s["dests"]}
    entered = sum(cin[l[0]][-1] for l in s["links"] if l[1] in onodes)
    left = sum(cout[l[0]][-1] for l in s["links"] if l[2] in dnodes)
    inside = sum(cin[l[0]][-1] - cout[l[0]][-1] for l in s["links"])
    ctx.expect(abs(entered - left - inside) < 1e-6, "network: %.6g entered, %.6g left, %.6g inside" % (entered, left, inside))
    ctx.expect(abs(left - st[3]) < 1e-6, "%.6g vehicles left the network, %.6g reported finished" % (left, st[3]))
    ctx.expect(abs(st[0] - st[2] - st[3]) < 1e-6, "released %.6g != en route %.6g + finished %.6g" % (st[0], st[2], st[3]))
    ctx.expect(entered <= st[0] + 1e-6, "%.6g entered the network, only %.6g were released" % (entered, st[0]))
    if s["total_interval"] <= 0:
        ctx.expect(st[2] == 0 and inside < 1e-6, "loading ended with %.6g vehicles en route" % st[2])
    else:
        ctx.expect(T >= min(s["total_interval"], 1), "no interval was loaded")
    ctx.count("released", round(st[0] * sc))
    for seg in ctx.mon.segments():
        h = oracle.History(s, seg)
        oracle.population(ctx, h)
        ctx.expect(abs(len(seg.veh) - st[0] * sc) < 1e-6, "released vehicles: %d seen, %.6g reported" % (len(seg.veh), st[0] * sc))
        for v in seg.veh.values():
            vis = h.visits[v.id]
            for (l1, a1, b1), (l2, a2, b2) in zip(vis, vis[1:]):
                ctx.expect(b1 == a2, lambda: "vehicle %d was on no link between %s and %d" % (v.id, b1, a2))
            if v.gone is None and vis:
                ctx.expect(vis[-1][2] is None, lambda: "vehicle %d vanished from link %d without finishing" % (v.id, vis[-1][0]))
