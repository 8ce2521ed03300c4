"""Cumulative curves tell exactly what moved."""
import random

import net
import numpy as np
import oracle
import wl
from sim import step_curve

RULE = ("one evaluation = 4 scenarios; every cumulative curve, read through every query that exposes it, is compared "
        "tick by tick with the counts of vehicles the monitor saw entering and leaving; distinct = scenario shapes")
ASSUMPTIONS = ["a movement made in interval t is counted from tick t+1 on, as the curve documentation says"]
TIMEOUT = 120


def gen(tier, seed):
    n = 120 if tier == "quick" else 1500
    out = []
    for kind, var in (("dta", wl.SINGLE), ("mcdta", wl.MULTI)):
        out += wl.chunks(wl.scenarios(seed, n, kind, "C04", var), 4)
    for i in range(4 if tier == "quick" else 24):     # more than 10,000 intervals and vehicles
        out.insert(0, dict(scens=[net.gen(random.Random("C04long/%d/%d" % (seed, i)), ("dta", "mcdta")[i % 2], assign_frq=1300,
                                          nmin=100, max_interval=10, inner=2, nO=1, nD=1, load=400, flow_scalar=2, ltypes=["PQ"],
                                          total_interval=-1, routing="Adaptive", route_frq=1300)]))
    return out


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def one(ctx, s, d):
    rng = random.Random("C04q/%d" % s["seed"])
    ids = [l[0] for l in s["links"]]
    if s["kind"] == "mcdta" and rng.random() < 0.5:
        reg = rng.sample(ids, rng.randint(1, len(ids)))
    else:
        reg = rng.sample(ids, len(ids))
    o = ctx.load(s, d, links=reg, tree=rng.random() < 0.3)
    ctx.sig(wl.shape(s))
    T = o.get_cur_loading_interval()
    ctx.expect(list(o.registered_links) == reg, "registered links come back in another order or number")
    segs = ctx.mon.segments()
    hist = oracle.History(s, segs[0]) if segs else None
    if hist:
        ctx.expect(hist.T == T, "%d intervals reported, %d observed" % (T, hist.T))
    fams = ([("", None, "get_link_in_cc", "get_link_out_cc", "get_in_ccs", "get_out_ccs", "get_link_inflow", None)]
            if s["kind"] == "dta" else
            [("car ", 0, "get_car_link_in_cc", "get_car_link_out_cc", "get_car_in_ccs", "get_car_out_ccs", "get_link_car_inflow", "get_car_link_out_num"),
             ("truck ", 1, "get_truck_link_in_cc", "get_truck_link_out_cc", "get_truck_in_ccs", "get_truck_out_ccs", "get_link_truck_inflow", "get_truck_link_out_num")])
    for name, cls, fi, fo, wi, wo, fl, num in fams:
        exp = hist.curves(cls) if hist else None
        for side, f, w in ((0, fi, wi), (1, fo, wo)):
            got = {}
            for l in reg:
                cc = getattr(o, f)(l)
                what = "%s%s curve of link %d" % (name, ("incoming", "outgoing")[side], l)
                ctx.expect(cc.ndim == 2 and cc.shape[1] == 2 and len(cc) > 0, what + " has a wrong shape")
                ctx.expect((np.diff(cc[:, 0]) > 0).all(), what + ": time does not increase")
                ctx.expect((np.diff(cc[:, 1]) >= -1e-12).all(), what + " decreases")
                ctx.expect(cc[0, 0] == 0 and cc[0, 1] == 0, what + " does not start at (0, 0)")
                ctx.expect(cc[-1, 0] <= T, what + " goes beyond the end")
                k = cc[:, 1] * s["flow_scalar"]
                ctx.expect(np.abs(k - np.round(k)).max() < 1e-6, what + " counts fractions of vehicles")
                got[l] = step_curve(cc, T)
                if exp:
                    oracle.curves_match(ctx, got[l], exp[l][side], what)
            m = getattr(o, w)()
            if ctx.expect(m.shape == (T + 1, len(reg)), "%s: shape %s, expected %s" % (w, m.shape, (T + 1, len(reg)))):
                for c, l in enumerate(reg):
                    ctx.expect(np.abs(m[:, c] - got[l]).max() < 1e-9, lambda: "%s: column of link %d differs from its curve" % (w, l))
            sub = rng.sample(reg, rng.randint(1, len(reg)))
            m = getattr(o, w)(sub)
            for c, l in enumerate(sub):
                ctx.expect(m.shape == (T + 1, len(sub)) and np.abs(m[:, c] - got[l]).max() < 1e-9,
                           lambda: "%s(links): column of link %d differs from its curve" % (w, l))
            if side == 0:
                cin = got
            else:
                for l in reg:
                    ctx.expect((cin[l] - got[l]).min() > -1e-9, lambda: "%slink %d: more vehicles left than entered" % (name, l))
                if num:
                    for l in reg:
                        t = rng.randint(0, T)
                        ctx.expect(abs(getattr(o, num)(l, t) - got[l][t]) < 1e-9, lambda: "%s(%d, %d) differs from the curve" % (num, l, t))
        a = np.array([rng.randint(0, T - 1) for _ in range(6)])
        b = np.array([rng.randint(x + 1, T) for x in a])
        if rng.random() < 0.5:     # any layout of the argument means the same
            a, b = [np.stack([x, x[::-1]], axis=1).astype(np.int32)[:, 0] for x in (a, b)]
        f = getattr(o, fl)(a, b)
        for c, l in enumerate(reg):
            e = cin[l][b] - cin[l][a]
            ctx.expect(f.shape == (len(reg), 6) and np.abs(f[c] - e).max() < 1e-9,
                       lambda: "%s of link %d: %s, the curve says %s" % (fl, l, f[c].tolist(), e.tolist()))
        for x, y in ((0, 0), (T, T + 1), (0, T + 1)):
            try:
                getattr(o, fl)(np.array([x]), np.array([y]))
                ctx.fail("%s answered for [%d, %d) of a loading of %d intervals" % (fl, x, y, T))
            except RuntimeError:
                ctx.count("refused_queries")
    # a new registration replaces the old one
    new = rng.sample(reg, rng.randint(1, len(reg)))
    o.register_links(np.array(new))
    ctx.count("registered again")
    if ctx.expect(list(o.registered_links) == new, "links registered again: %s instead of %s" % (list(o.registered_links)[:20], new[:20])):
        for name, cls, fi, fo, wi, wo, fl, num in fams:
            f = getattr(o, fl)(np.array([0, 0]), np.array([1, T]))
            ctx.expect(f.shape == (len(new), 2), "%s after a new registration: shape %s" % (fl, f.shape))
            for w, q in ((wi, fi), (wo, fo)):
                m = getattr(o, w)()
                if ctx.expect(m.shape == (T + 1, len(new)), "%s after a new registration: shape %s" % (w, m.shape)):
                    for c, l in enumerate(new):
                        e = step_curve(getattr(o, q)(l), T)
                        ctx.expect(np.abs(m[:, c] - e).max() < 1e-9, lambda: "%s after a new registration: column of link %d differs from its curve" % (w, l))
                        if q == fi and f.shape == (len(new), 2):
                            ctx.expect(abs(f[c, 1] - e[T] + e[0]) < 1e-9, lambda: "%s after a new registration: link %d has %s, its curve %s" % (fl, l, f[c, 1], e[T]))
