"""Link attributes that change during a two-class loading, and tolls."""
import importlib.util
import os
import random

import numpy as np
import oracle
import wl
from sim import step_curve

HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


C09, C14 = mod("C09"), mod("C14")
RULE = ("one evaluation = 3 two-class scenarios with time-dependent link attributes: changed while the network is empty, compared in full with a "
        "network that has the new attributes from the start, or changed while it is loaded: identical before, attributes and conservation after; "
        "distinct = scenario shapes and kinds of change")
ASSUMPTIONS = ["attributes are changed within what the link models allow (the cells of a cell-transmission link keep their lengths)"]
TIMEOUT = 120
V = [dict(routing="Biclass_Hybrid", adaptive_ratio_car=0, adaptive_ratio_truck=0, load=60, tight=True), dict(routing="Adaptive", load=50, tight=True),
     dict(routing="Biclass_Hybrid", ltypes=["CTM"], adaptive_ratio_car=0, adaptive_ratio_truck=0, load=60, tight=True),
     dict(routing="Biclass_Hybrid", ltypes=["LQ"], load=60, tight=True), dict(routing="Biclass_Hybrid", load=40),
     dict(routing="Biclass_Hybrid", ltypes=["PQ"], adaptive_ratio_car=0, adaptive_ratio_truck=0, load=60, tight=True), dict(routing="Hybrid", load=40)]


def q(x):
    return max(1, round(x * 8)) / 8.0


def changed(rng, s, l):
    """Other attributes for link *l*, all exactly representable."""
    r = list(l)
    typ = l[3]
    lanes = max(1, l[8] + rng.choice([-1, 0, 0, 1]))
    ffs, length = l[5], l[4]
    if typ != "CTM":
        ffs = rng.choice([15, 20, 30, 40, 55])
        length = max(4, round(l[4] * rng.uniform(0.5, 2) * 64)) / 64.0
    need = 3600.0 / s["unit_time"] / s["flow_scalar"] / lanes * 1.05
    cap = q(max(need, min(3400, l[6] * rng.uniform(0.5, 1.5))))
    if typ == "CTM":
        cap = q(min(cap, 300 * ffs / 2.05))
    rhoj = q(max(2.3 * cap / ffs, rng.choice([150, 180, 220])))
    if typ == "CTM":
        rhoj = min(rhoj, 300.0)
    k = rng.choice([1.0, 0.875, 0.75, 0.5])
    cap_t = q(cap * rng.choice([1.0, 0.875, 0.75]))
    rhoj_t = q(max(rhoj * rng.choice([1.0, 0.75]), 1.3 * cap_t / (ffs * k)))
    r[4:12] = [length, ffs, cap, rhoj, lanes, ffs * k, cap_t, rhoj_t]
    return r


def gen(tier, seed):
    n = 900 if tier == "quick" else 1500
    ss = wl.scenarios(seed, n, "mcdta", "C18", V)
    for i, s in enumerate(ss):
        rng = random.Random("C18/%d" % s["seed"])
        for l in s["links"]:      # values that both readers parse alike
            l[4] = max(2, round(l[4] * 64)) / 64.0
            l[9:12] = [q(l[9]), q(l[10]), q(l[11])]
            l[6:8] = [q(l[6]), q(l[7])]
        ids = rng.sample(range(len(s["links"])), rng.randint(1, len(s["links"])))
        new = {}
        for k in ids:
            new[str(k)] = [changed(rng, s, s["links"][k]), rng.choice([0, 0, 0.5, 3.25])]
        adaptive = s["routing"] == "Adaptive" or s["routing"] == "Hybrid" or s.get("adaptive_ratio_car") or s.get("adaptive_ratio_truck")
        s["td"] = dict(new=new, mode=i % 3, t=0, adaptive=bool(adaptive), restore=rng.random() < 0.25)
        a = s["assign_frq"]
        if i % 3 == 0:            # before anything is released
            if not adaptive and s["max_interval"] > 1:
                for r in s["demand"]:
                    r[2][0] = 0.0
                    r[3][0] = 0.0
                s["td"]["t"] = rng.randint(0, a)
        else:                      # while the network is loaded
            s["td"]["t"] = rng.randint(1, a * s["max_interval"] + 20)
    return wl.chunks(ss, 3)


def rows(s, what, t):
    """Table rows at interval *t*: the new attributes, or the original ones."""
    r = []
    for k, (l, toll) in s["td"]["new"].items():
        if what == "old":
            l, toll = s["links"][int(k)], 0
        r.append([t, l[0], l[3]] + l[4:13] + [toll])
    return r


def with_table(s, rs):
    txt = "interval link_ID type length ffs_car cap_car rhoj_car lane ffs_truck cap_truck rhoj_truck conv toll\n"
    txt += "".join(" ".join(str(x) for x in r) + "\n" for r in rs)
    return dict(s, files={"MNM_input_link_td_attribute": txt})


def static(s):
    links = [list(l) for l in s["links"]]
    toll = "#link car truck\n"
    n = 0
    for k, (l, x) in s["td"]["new"].items():
        links[int(k)] = l
        if x:
            toll += "%d %s %s\n" % (l[0], x, x)
            n += 1
    return dict(s, links=links, files={"MNM_input_link_toll": toll}, conf={"num_of_tolled_link": n})


def full(ctx, s, name):
    o = ctx.load(s, ctx.write(s, name), flags=3)
    d = C09.digest(ctx, s, o)
    seg = (ctx.mon.segments() or [None])[0]
    ids = np.array(sorted(l[0] for l in s["links"]))
    d["free-flow times"] = repr((o.get_car_link_fftt(ids).tolist(), o.get_truck_link_fftt(ids).tolist()))
    T = o.get_cur_loading_interval()
    return o, d, seg, T


def link_rows(seg, a, b):
    r = seg.link
    return r[(r[:, 1] >= a) & (r[:, 1] < b)]


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        td = s["td"]
        ctx.sig("%s %d %d" % (wl.shape(s), td["mode"], td["restore"]))
        if td["mode"] == 0:
            empty(ctx, s, i)
        else:
            loaded(ctx, s, i)


def same(ctx, s, a, b, how):
    bad = [k for k in a if a[k] != b.get(k)]
    ctx.expect(not bad, lambda: "%s (%s): these differ: %s" % (how, s["routing"], bad[:6]))
    ctx.count("results compared", len(a))


def empty(ctx, s, i):
    t = s["td"]["t"]
    rs = rows(s, "new", t)
    ref = static(s)
    if s["td"]["restore"] and t >= 1:
        rs = rows(s, "new", random.Random(s["seed"]).randint(0, t - 1)) + rows(s, "old", t)
        ref = s
    random.Random(s["seed"]).shuffle(rs)
    _, a, sa, Ta = full(ctx, with_table(s, rs), "a%d" % i)
    _, b, sb, Tb = full(ctx, ref, "b%d" % i)
    same(ctx, s, b, a, "attributes changed at interval %d, before any departure, against a network that has them from the start" % t)
    if sa and sb and Ta == Tb:
        x, y = link_rows(sa, t, Ta), link_rows(sb, t, Tb)
        key = lambda r: r[np.lexsort((r[:, 2], r[:, 1]))][:, [1, 2, 3, 4, 5, 8, 9]]
        x, y = key(x), key(y)
        bad = np.nonzero((x != y).any(axis=1))[0] if x.shape == y.shape else [0]
        ctx.expect(len(bad) == 0, lambda: "link state after the change differs from the network that has the attributes from the start: (interval, link, flow, car, truck, time, toll) %s, %s"
                   % (x[bad[0]].tolist(), y[bad[0]].tolist()))


def loaded(ctx, s, i):
    t = s["td"]["t"]
    rs = rows(s, "new", t)
    t2 = None
    if s["td"]["restore"]:
        t2 = t + 1 + s["seed"] % 30
        rs += rows(s, "old", t2)
    s2 = with_table(s, rs)
    if s["total_interval"] <= 0:
        s2["total_interval"] = s["total_interval"]
    o1, a, sa, Ta = full(ctx, s, "a%d" % i)
    del o1
    o, b, sb, Tb = full(ctx, s2, "b%d" % i)
    if not sa or not sb:
        return
    # nothing changes before the change, or if it comes after the end
    cut = lambda seg: sorted((v.id, v.o, v.d, v.cls, v.start, tuple(m[:2] for m in v.moves if m[0] < t)) for v in seg.veh.values() if v.seen < t)
    ctx.expect(cut(sa) == cut(sb), lambda: "vehicles move differently before the attributes change at interval %d" % t)
    x, y = link_rows(sa, 0, min(t, Ta)), link_rows(sb, 0, min(t, Tb))
    ctx.expect(x.shape == y.shape and (x == y).all(), lambda: "link states differ before the attributes change at interval %d" % t)
    if t >= Ta:
        ctx.count("changes after the end")
        same(ctx, s, a, b, "attributes changed at interval %d, after the end at %d" % (t, Ta))
        return
    ctx.count("changes under load")
    h = oracle.History(s2, sb)
    oracle.population(ctx, h)
    for cls, name, fi, fo in ((0, "cars", o.get_car_link_in_cc, o.get_car_link_out_cc), (1, "trucks", o.get_truck_link_in_cc, o.get_truck_link_out_cc)):
        exp = h.curves(cls)
        for l in s["links"]:
            for f, side in ((fi, 0), (fo, 1)):
                e = exp[l[0]][side]
                oracle.curves_match(ctx, step_curve(f(l[0]), len(e) - 1), e, "%s %s link %d" % (name, ("into", "out of")[side], l[0]))
    # the attributes in force show in the travel time of every link at every interval
    inv = {s["links"][int(k)][0]: (s["links"][int(k)], v[0], v[1]) for k, v in s["td"]["new"].items()}
    L = {l[0]: l for l in s["links"]}
    r = sb.link
    for lid, l in L.items():
        m = r[r[:, 2] == lid]
        tick = m[:, 1]
        n = m[:, 3] / 1e6
        if lid in inv:
            on = (tick >= t) & (tick < (t2 if t2 is not None else 10 ** 9))
        else:
            on = np.zeros(len(m), bool)
        for sel, at, toll in ((on, inv[lid][1] if lid in inv else l, inv[lid][2] if lid in inv else 0), (~on, l, 0)):
            if not sel.any():
                continue
            f = C14.fd(s, at, n[sel])
            e, kink = f if isinstance(f, tuple) else (f, np.zeros(sel.sum(), bool))
            g = m[sel][:, 8] / 1e6
            bad = (np.abs(g - e) > 1e-4 + 1e-3 * np.abs(e)) & ~kink
            ctx.expect(not bad.any(), lambda: "link %d (%s) with attributes %s at interval %d: travel time %g for %g vehicles, expected %g" % (
                lid, l[3], at[4:], tick[sel][bad][0], g[bad][0], n[sel][bad][0], e[bad][0]))
            gt = m[sel][:, 9] / 1e6
            ctx.expect((np.abs(gt - toll) < 1e-5).all(), lambda: "link %d: toll %s at interval %d, expected %s" % (lid, gt[np.abs(gt - toll) > 1e-5][0], tick[sel][0], toll))
            ctx.count("link states checked", int(sel.sum()))
