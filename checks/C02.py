import oracle
import wl
from sim import step_curve

RULE = ("one evaluation = 3 random two-class scenarios loaded with the monitor attached; "
        "distinct = different (network size, routing, link models, scalar, demand pairs)")
ASSUMPTIONS = ["well-formed inputs whose links admit at least one vehicle per interval",
               "origin and destination connectors use the point-queue model, as the code demands"]
TIMEOUT = 60


def gen(tier, seed):
    n = 480 if tier == "quick" else 1800
    return wl.chunks(wl.scenarios(seed, n, "mcdta", "C02", wl.MULTI), 3)


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def one(ctx, s, d):
    o = ctx.load(s, d, flags=1)
    ctx.sig(wl.shape(s))
    T = o.get_cur_loading_interval()
    st = o.get_travel_stats()
    sc = s["flow_scalar"]
    onodes = {n for _, n in s["origins"]}
    dnodes = {n for _, n in s["dests"]}
    segs = ctx.mon.segments()
    for cls, name in ((0, "car"), (1, "truck")):
        gi = getattr(o, "get_%s_link_in_cc" % name)
        go = getattr(o, "get_%s_link_out_cc" % name)
        cin = {l[0]: step_curve(gi(l[0]), T) for l in s["links"]}
        cout = {l[0]: step_curve(go(l[0]), T) for l in s["links"]}
        oracle.node_balance(ctx, s, cin, cout, name)
        entered = sum(cin[l[0]][-1] for l in s["links"] if l[1] in onodes)
        left = sum(cout[l[0]][-1] for l in s["links"] if l[2] in dnodes)
        inside = sum(cin[l[0]][-1] - cout[l[0]][-1] for l in s["links"])
        for l in s["links"]:
            ctx.expect((cin[l[0]] - cout[l[0]]).min() > -1e-6, lambda: "%s link %d: more left than entered" % (name, l[0]))
        ctx.expect(abs(entered - left - inside) < 1e-6, "%s: %.6g entered, %.6g left, %.6g inside" % (name, entered, left, inside))
        ctx.expect(entered <= st[cls] + 1e-6, "%s: %.6g entered, %.6g released" % (name, entered, st[cls]))
        if s["total_interval"] <= 0:
            ctx.expect(abs(left - st[cls]) < 1e-6, "%s: %.6g left the network of %.6g released" % (name, left, st[cls]))
        for seg in segs:
            n = sum(1 for v in seg.veh.values() if v.cls == cls)
            ctx.expect(abs(n - st[cls] * sc) < 1e-6, "%s: %d released vehicles seen, %.6g reported" % (name, n, st[cls] * sc))
    for seg in segs:
        h = oracle.History(s, seg)
        oracle.population(ctx, h)
        ctx.count("cars", sum(1 for v in seg.veh.values() if v.cls == 0))
        ctx.count("trucks", sum(1 for v in seg.veh.values() if v.cls == 1))
        if s["total_interval"] <= 0:
            ctx.expect(all(v.gone is not None for v in seg.veh.values()), "the loading ended with vehicles left in the network")
        for v in seg.veh.values():
            vis = h.visits[v.id]
            for (l1, a1, b1), (l2, a2, b2) in zip(vis, vis[1:]):
                ctx.expect(b1 == a2, lambda: "vehicle %d was on no link between %s and %d" % (v.id, b1, a2))
            if v.gone is None and vis:
                ctx.expect(vis[-1][2] is None, lambda: "vehicle %d vanished from link %d without finishing" % (v.id, vis[-1][0]))
