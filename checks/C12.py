"""Travel times reported after a loading follow from the cumulative curves."""
import math
import os
import random

import numpy as np
import wl

RULE = ("one evaluation = 3 scenarios; every travel-time, speed and path query is recomputed from the cumulative curves "
        "for all links and sampled departure times; distinct = scenario shapes")
ASSUMPTIONS = ["the curves themselves are judged by C04", "where the outgoing curve jumps past the sought level the "
               "level before the jump is used, as the code documents (rounding down)"]
TIMEOUT = 90
S_ONLY = [dict(routing="Hybrid"), dict(routing="Hybrid", tight=True, load=60, ltypes=["PQ", "CTM", "LQ"]),
          dict(routing="Hybrid", total_interval=60, load=60, tight=True), dict(routing="Fixed"),
          dict(routing="Hybrid", flow_scalar=1, load=8), dict(routing="Hybrid", inner=1, nO=2, nD=2, load=80, tight=True)]
M_ONLY = [dict(routing="Biclass_Hybrid"), dict(routing="Biclass_Hybrid", tight=True, load=80, ltypes=["PQ", "CTM", "LQ"]),
          dict(routing="Biclass_Hybrid", total_interval=60, load=80, tight=True), dict(routing="Fixed"),
          dict(routing="Biclass_Hybrid", flow_scalar=1, load=12, nmin=1), dict(routing="Biclass_Hybrid", inner=1, nO=2, nD=2, load=80, tight=True)]


def gen(tier, seed):
    n = 240 if tier == "quick" else 3000
    out = []
    for kind, var in (("dta", S_ONLY), ("mcdta", M_ONLY)):
        ss = wl.scenarios(seed, n, kind, "C12", var)
        for i, s in enumerate(ss):
            rng = random.Random("C12t/%s/%d/%d" % (kind, seed, i))
            if rng.random() < 0.6:
                t = {l[0]: round(rng.uniform(0, 3), 2) for l in s["links"] if rng.random() < 0.5}
                if t:
                    s["tolls"] = {str(k): v for k, v in t.items()}
                    s.setdefault("files", {})["MNM_input_link_toll"] = "#link toll\n" + "".join(
                        "%d %s\n" % (k, v if kind == "dta" else "%s %s" % (v, round(v * 1.7, 3))) for k, v in t.items())
                    s["conf"] = dict(s.get("conf", {}), num_of_tolled_link=len(t))
        out += wl.chunks(ss, 3)
    return out


def up(x):
    if x < 1:
        return 1
    k = math.floor(x)
    return k if abs(x - k) <= 1e-4 * x or abs(x - k) < 1e-9 else k + 1


class Link:
    """Length (m), speed (m/s) and free-flow time (intervals; a set when rounding is on the edge) of a class."""

    def __init__(self, s, l, cls):
        u = s["unit_time"]
        ffs = [l[5], l[9]][cls] if s["kind"] == "mcdta" else l[5]
        self.len = l[4] * 1600.0
        self.ffs = ffs * 1600.0 / 3600.0
        car = l[5] * 1600.0 / 3600.0
        x = self.len / (car * u)
        fl = {max(1, math.floor(x - 1e-9)), max(1, math.floor(x + 1e-9))}
        if l[3] == "LQ":
            y = self.len / self.ffs / u
            self.ff = {up(y - 1e-9), up(y + 1e-9)}
        elif l[3] == "CTM" and cls == 1:
            r = car / self.ffs
            self.ff = {math.floor(k * r + e) for k in fl for e in (-1e-9, 1e-9)} - {0}
        else:
            self.ff = fl
        if l[3] == "CTM" and s["kind"] == "mcdta" and x < 1:
            self.len = car * u


class Curve:
    def __init__(self, cc):
        self.t, self.v = cc[:, 0], cc[:, 1]

    def at(self, x):
        i = int(np.searchsorted(self.t, x + 1e-7, side="right")) - 1
        return self.v[i] if i >= 0 else 0.0

    def reach(self, level):
        """First tick with the level, or with the level before a jump past it; None if never reached."""
        i = int(np.searchsorted(self.v, level - 1e-7 * max(1, level)))
        if i >= len(self.v):
            return None
        if abs(self.v[i] - level) <= 1e-7 * max(1, level):
            return self.t[i]
        if i == 0:
            return self.t[0]
        return self.t[int(np.searchsorted(self.v, self.v[i - 1] - 1e-9))]


def travel(cin, cout, tick, T, ff):
    """Intervals from *tick* on, for every admissible free-flow time."""
    fin = cout.v[-1]
    if abs(cin.v[-1] - fin) < 1e-7 * max(1, fin):
        last = float(T)
    else:
        j = int(np.searchsorted(cin.v, fin + 1e-7 * max(1, fin), side="right"))
        last = cin.t[j] - 1.0
    if last <= 0:
        return set(ff)
    tick = min(tick, last)
    level = cin.at(tick)
    if level <= 1e-12:
        return set(ff)
    e = cout.reach(level)
    if e is None:
        return set(ff)
    return {max(float(f), e - tick) for f in ff}


def fd(s, l, n):
    u = s["unit_time"]
    rj, cap = l[7] / 1600.0, l[6] / 3600.0
    if l[3] == "CTM":
        rj, cap = min(rj, 300 / 1600.0), min(cap, 3500 / 3600.0)
    ln, ffs = l[4] * 1600.0, l[5] * 1600.0 / 3600.0
    rho = n / l[8] / ln
    rk = cap / ffs
    if rho >= rj:
        return 3600.0
    if rho <= rk:
        return ln / ffs
    return ln / max(ffs * (0.001 if l[3] == "CTM" else 2.3e-16), cap * (rj - rho) / ((rj - rk) * rho))


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def ok(got, want):
    return any(abs(got - w) <= 1e-9 * max(1.0, abs(w)) or got == w for w in want)


def one(ctx, s, d):
    rng = random.Random("C12q/%d" % s["seed"])
    mc = s["kind"] == "mcdta"
    ids = [l[0] for l in s["links"]]
    reg = rng.sample(ids, len(ids))
    o = ctx.load(s, d, links=reg)
    ctx.sig(wl.shape(s))
    T = o.get_cur_loading_interval()
    u = float(s["unit_time"])
    L = {l[0]: l for l in s["links"]}
    tab = s["routing"] in ("Hybrid", "Biclass_Hybrid")
    if tab:
        o.build_link_cost_map(rng.random() < 0.5)
        npath = len(s["paths"])
        pk = rng.sample(range(npath), rng.randint(1, npath))
        o.register_paths(np.array(pk))
    vot = (s["vot"] if s.get("vot") is not None else 20.0) / 3600.0 * u
    starts = sorted(set([0, T - 1] + [rng.randint(0, T - 1) for _ in range(25)]))
    for cls, pre, suf in ((0, "car_", "_car"), (1, "truck_", "_truck")) if mc else ((0, "", ""),):
        G = {l: Link(s, L[l], cls) for l in reg}
        cin = {l: Curve(getattr(o, "get_%slink_in_cc" % pre)(l)) for l in reg}
        cout = {l: Curve(getattr(o, "get_%slink_out_cc" % pre)(l)) for l in reg}

        def tt(l, st):
            return travel(cin[l], cout[l], st + 1, T, G[l].ff)

        def capped(v, l, inf):
            b = 20.0 * G[l].len / G[l].ffs
            r = {x * u for x in v}
            # right at the bound both answers are rounding
            return {y for x in r for y in ([x] if x <= b * (1 - 1e-9) else [math.inf if inf else b] if x > b * (1 + 1e-9) else [x, b] + [math.inf] * inf)}

        f = getattr(o, "get_%slink_tt" % pre)
        for inf in (False, True):
            m = f(np.array(starts), inf)
            ctx.expect(m.shape == (len(reg), len(starts)), "shape of the travel times is %s" % (m.shape,))
            for i, l in enumerate(reg):
                for j, st in enumerate(starts):
                    w = capped(tt(l, st), l, inf)
                    ctx.expect(ok(m[i, j], w), lambda: "%slink %d (%s) entered at %d: travel time %.9g s, the curves say %s" % (pre, l, L[l][3], st, m[i, j], sorted(w)))
                    ctx.count("travel_times")
                    if len(G[l].ff) > 1 and m[i, j] / u in G[l].ff:     # rounding on the edge: take what is seen
                        v = m[i, j] / u
                        if tt(l, st) == G[l].ff:
                            G[l].ff = {v}
        # averages over an interval
        a = [float(rng.randint(0, T - 1)) for _ in range(4)]
        b = [float(rng.randint(int(x) + 1, T)) for x in a]
        k = rng.choice([1, 3, 10, 1000])
        inf = rng.random() < 0.5
        m = getattr(o, "get_%slink_tt_robust" % pre)(np.array(a), np.array(b), k, inf)
        for i, l in enumerate(reg):
            if len(G[l].ff) > 1:
                continue
            for j in range(4):
                n = min(k, int(b[j] - a[j]))
                v = sum(max(tt(l, a[j] + q * (b[j] - a[j]) / n)) for q in range(n)) / n
                w = capped({v}, l, inf)
                ctx.expect(any(abs(m[i, j] - x) <= 1e-6 * max(1, abs(x)) or m[i, j] == x for x in w),
                           lambda: "%slink %d: mean travel time over [%g, %g) with %d samples is %.9g s, the curves say %s" % (pre, l, a[j], b[j], k, m[i, j], sorted(w)))
                ctx.count("mean_travel_times")
        for args in (([T], False), ([0, T + 3], False)):
            refused(ctx, f, np.array(args[0]), False)
        rf = getattr(o, "get_%slink_tt_robust" % pre)
        for x, y in ((0.0, 0.0), (float(T), T + 1.0), (0.0, T + 1.0)):
            refused(ctx, rf, np.array([x]), np.array([y]), 3, False)
        if mc:
            m = getattr(o, "get_%slink_speed" % pre)(np.array(starts, dtype=float))
            for i, l in enumerate(reg):
                for j, st in enumerate(starts):
                    w = {G[l].len / (x * u) * 3600 / 1600 for x in tt(l, st)}
                    ctx.expect(ok(m[i, j], w), lambda: "%sspeed on link %d entered at %d: %.9g, expected %s" % (pre, l, st, m[i, j], sorted(w)))
            sub = rng.sample(reg, min(5, len(reg)))
            g = getattr(o, "get_%slink_fftt" % pre)(np.array(sub))
            for i, l in enumerate(sub):
                ctx.expect(ok(g[i], {x * u for x in G[l].ff}), lambda: "%sfree-flow time of link %d (%s): %g s, expected %s" % (pre, l, L[l][3], g[i], G[l].ff))
            sel = [float(x) for x in rng.sample(starts, min(5, len(starts)))]
            g = getattr(o, "get_avg_link_on_path_tt" + suf)(np.array(sub), np.array(sel))
            for i, l in enumerate(sub):
                if len(G[l].ff) == 1:
                    w = sum(max(capped(tt(l, x), l, False)) for x in sel) / len(sel)
                    ctx.expect(abs(g[i] - w) < 1e-6 * max(1, w), lambda: "%slink %d: average travel time %.9g s, expected %.9g" % (pre, l, g[i], w))
        else:
            m = o.get_link_tt_FD(np.array(starts))
            for i, l in enumerate(reg):
                for j, st in enumerate(starts):
                    w = fd(s, L[l], max(0.0, cin[l].at(st) - cout[l].at(st)))
                    ctx.expect(abs(m[i, j] - w) <= 1e-6 * max(1, w), lambda: "link %d (%s) at %d: density travel time %.9g s, expected %.9g" % (l, L[l][3], st, m[i, j], w))
        if not tab:
            continue
        toll = {l: s.get("tolls", {}).get(str(l), 0.0) * (1.0 if cls == 0 else 1.7) for l in reg}
        memo = {}

        def link(l, x):
            x = min(x, T - 1)
            if (l, x) not in memo:
                memo[l, x] = max(tt(l, x))
            return memo[l, x]

        def path(ls, st):
            x, c = st, 0.0
            for l in ls:
                v = link(l, x)
                c += vot * v + toll[l]
                x += up(v)
            return (x - st) * u, c

        sel = np.array(rng.sample(starts, min(8, len(starts))))
        m = getattr(o, "get_registered_path_tt" + suf)(sel)
        ctx.expect(m.shape == (len(pk), len(sel)), "shape of the path travel times is %s" % (m.shape,))
        for i, p in enumerate(pk):
            ls = s["paths"][p][2]
            q = getattr(o, "get_path_tt" + suf)(np.array(ls), sel)
            if any(len(G[l].ff) > 1 for l in ls):
                ctx.count("skipped_paths")
                continue
            for j, st in enumerate(sel.tolist()):
                w = path(ls, st)
                ctx.expect(abs(m[i, j] - w[0]) < 1e-6, lambda: "%spath %d at %d: travel time %.9g s, its links add up to %.9g" % (pre, p, st, m[i, j], w[0]))
                ctx.expect(abs(q[0, j] - w[0]) < 1e-6 and abs(q[1, j] - w[1]) < 1e-3 + 1e-3 * abs(w[1]),
                           lambda: "%slinks %s at %d: travel time %.9g s and cost %.9g, expected %.9g and %.9g" % (pre, ls, st, q[0, j], q[1, j], w[0], w[1]))
                ctx.count("path_travel_times")
        refused(ctx, getattr(o, "get_registered_path_tt" + suf), np.array([T]))
        refused(ctx, getattr(o, "get_path_tt" + suf), np.array(s["paths"][0][2]), np.array([T]))


def refused(ctx, f, *a):
    try:
        f(*a)
    except RuntimeError:
        ctx.count("refused_queries")
        return
    ctx.fail("%s%s was answered outside the loaded period" % (f.__name__, tuple(x.tolist() if hasattr(x, "tolist") else x for x in a)))
