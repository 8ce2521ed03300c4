"""Assignment ratios: which path flow of which departure interval uses a link, and when."""
import os
import random

import numpy as np
import oracle
import wl

RULE = ("one evaluation = 3 scenarios with pre-trip routing; every record of the assignment matrices, in each of the three "
        "forms, is compared with the entries the monitor saw, and each link's records with its inflow; distinct = scenario shapes")
ASSUMPTIONS = ["links out of origins are not covered by the assignment records", "the flow vector covers every registered path and departure interval",
               "two-class ratio matrices and ratio files assume that all paths are registered, as the code says"]
TIMEOUT = 120
S = [dict(routing="Hybrid", adaptive_ratio=0, load=30), dict(routing="Hybrid", adaptive_ratio=0, load=60, tight=True, max_interval=4),
     dict(routing="Hybrid", adaptive_ratio=0, total_interval=70, load=60, tight=True),
     dict(routing="Hybrid", adaptive_ratio=0, inner=7, npaths=8, load=30), dict(routing="Hybrid", adaptive_ratio=0, junctions=["GRJ", "FWJ"])]
M = [dict(routing="Biclass_Hybrid", adaptive_ratio_car=0, adaptive_ratio_truck=0, load=40),
     dict(routing="Biclass_Hybrid", adaptive_ratio_car=0, adaptive_ratio_truck=0, load=90, tight=True, max_interval=4),
     dict(routing="Biclass_Hybrid", adaptive_ratio_car=0, adaptive_ratio_truck=0, total_interval=70, load=60, tight=True),
     dict(routing="Biclass_Hybrid", adaptive_ratio_car=0, adaptive_ratio_truck=0, inner=7, npaths=8, load=60),
     dict(routing="Biclass_Hybrid", adaptive_ratio_car=0, adaptive_ratio_truck=0, nmin=5, max_interval=3, load=60)]


def gen(tier, seed):
    n = 450 if tier == "quick" else 1800
    out = []
    for kind, var in (("dta", S), ("mcdta", M)):
        out += wl.chunks(wl.scenarios(seed, n, kind, "C13", var), 3)
    return out


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def one(ctx, s, d):
    rng = random.Random("C13q/%d" % s["seed"])
    mc = s["kind"] == "mcdta"
    onodes = {n for _, n in s["origins"]}
    ids = [l[0] for l in s["links"] if l[1] not in onodes]
    reg = rng.sample(ids, rng.randint(max(1, len(ids) // 2), len(ids)))
    o = ctx.build(s, d, links=reg, tree=True)
    npath = len(s["paths"])
    allp = rng.random() < 0.6
    pk = list(range(npath)) if allp else rng.sample(range(npath), rng.randint(1, npath))
    o.register_paths(np.array(pk))
    ctx.mon.reset()
    o.run_whole()
    ctx.sig(wl.shape(s))
    T = o.get_cur_loading_interval()
    segs = ctx.mon.segments()
    a = s["assign_frq"]
    seen = None
    if segs:
        h = oracle.History(s, segs[0])
        order = {tuple(p[2]): i for i, p in enumerate(s["paths"])}
        seen = {}      # (cls, link) -> {(path, assign): [ticks]}
        dep = {}
        for v in segs[0].veh.values():
            p = order.get(tuple(segs[0].paths.get(v.moves[0][3], ())))
            ctx.expect(p is not None, lambda: "vehicle %d has no path of the table" % v.id)
            c = v.cls if mc else 0
            # the departure interval, from when the vehicle appeared
            k = (p, v.seen // a)
            dep[(c,) + k] = dep.get((c,) + k, 0) + 1
            for l, ti, _ in h.visits[v.id]:
                seen.setdefault((c, l), {}).setdefault(k, []).append(ti + 1)
    nint = s["max_interval"]
    style = rng.choice(["grid", "grid", "random"])
    if style == "grid":
        starts = [i * a for i in range(nint) if i * a < T]
        ends = [min(T, x + a) for x in starts]
    else:
        starts = [rng.randint(0, T - 1) for _ in range(nint)]
        ends = [rng.randint(x + 1, T) for x in starts]
    S_, E_ = np.array(starts), np.array(ends)
    for c, pre, infl in ((0, "car_", "get_link_car_inflow"), (1, "truck_", "get_link_truck_inflow")) if mc else ((0, "", "get_link_inflow"),):
        want = {}
        if seen is not None:
            for l in reg:
                for (p, k), tk in seen.get((c, l), {}).items():
                    if p not in pk:
                        continue
                    tk = np.array(tk)
                    for t, (x, y) in enumerate(zip(starts, ends)):
                        n = int(((tk > x) & (tk <= y)).sum())
                        if n:
                            want[(p, k, l, t)] = n / s["flow_scalar"]
        m = getattr(o, "get_%sdar_matrix" % pre)(S_, E_)
        ctx.expect(m.ndim == 2 and m.shape[1] == 5, "shape of the records is %s" % (m.shape,))
        # the records name the start of the period, which need not be unique
        exp = {}
        for (p, k, l, t), f in want.items():
            exp.setdefault((p, k, l, starts[t]), []).append(f)
        got = {}
        for r in m.tolist():
            got.setdefault(tuple(int(x) for x in r[:4]), []).append(r[4])
        if seen is not None:
            for key in set(got) | set(exp):
                x, y = sorted(got.get(key, [])), sorted(exp.get(key, []))
                ctx.expect(len(x) == len(y) and all(abs(p - q) < 1e-9 for p, q in zip(x, y)),
                           lambda: "%spath %d of departure interval %d on link %d from %d on: flows %s reported, %s observed" % ((pre,) + key + (x, y)))
                ctx.count("records")
        if allp:
            fl = getattr(o, infl)(S_, E_)
            tot = {}
            for r in m.tolist():
                tot[int(r[2]), int(r[3])] = tot.get((int(r[2]), int(r[3])), 0) + r[4]
            for i, l in enumerate(reg):
                for x in set(starts):
                    e = sum(fl[i, t] for t in range(len(starts)) if starts[t] == x)
                    ctx.expect(abs(tot.get((l, x), 0) - e) < 1e-6,
                               lambda: "%slink %d from %d on: the records add up to %.6g, the inflow is %.6g" % (pre, l, x, tot.get((l, x), 0), e))
                    ctx.count("inflows")
        # ratios: flow over path flow, rows = link in period, columns = path in departure interval
        f = np.array([rng.uniform(0.5, 40) for _ in range(len(pk) * nint)])
        if seen is not None and rng.random() < 0.5:
            # the flows that were loaded; nothing where nobody departed
            least = rng.choice([0, 0, 1])
            for j, p in enumerate(pk):
                for k in range(nint):
                    f[j + len(pk) * k] = max(dep.get((c, p, k), 0), least) / s["flow_scalar"]
        z = None
        try:
            if allp or not mc:
                z = getattr(o, "get_complete_%sdar_matrix" % pre)(S_, E_, nint, f)
        except MemoryError:
            ctx.count("no_memory")
        if z is not None:
            ctx.expect(z.shape == (nint * len(reg), nint * len(pk)), "shape of the ratio matrix is %s" % (z.shape,))
            z = z.tocoo()
            g = {(int(x), int(y)): v for x, y, v in zip(z.row, z.col, z.data)}
            if seen is not None:
                w = {(reg.index(l) + len(reg) * t, pk.index(p) + len(pk) * k): q / f[pk.index(p) + len(pk) * k] for (p, k, l, t), q in want.items()}
                for key in set(g) | set(w):
                    ctx.expect(abs(g.get(key, 0) - w.get(key, 0)) < 1e-9 * max(1, w.get(key, 0)),
                               lambda: "%sratio at %s is %.9g, expected %.9g" % (pre, key, g.get(key, 0), w.get(key, 0)))
                    ctx.count("ratios")
        if allp:
            fn = os.path.join(ctx.tmp, "dar%d.txt" % c)
            getattr(o, "save_%sdar_matrix" % pre)(S_, E_, f, fn)
            g = {}
            for line in open(fn):
                x, y, v = line.split(",")
                ctx.expect((int(x), int(y)) not in g, "the file names %s twice" % line.strip())
                g[int(x), int(y)] = float(v)
            if seen is not None:
                for key in set(g) | set(w if z is not None else g):
                    if z is not None:
                        ctx.expect(abs(g.get(key, 0) - w.get(key, 0)) < 1e-6 + 1e-6 * w.get(key, 0),
                                   lambda: "%sfile: ratio at %s is %.9g, expected %.9g" % (pre, key, g.get(key, 0), w.get(key, 0)))
        for x, y in ((0, 0), (T, T + 1), (0, T + 1)):
            try:
                getattr(o, "get_%sdar_matrix" % pre)(np.array([x]), np.array([y]))
                ctx.fail("assignment records were given for [%d, %d) of a loading of %d intervals" % (x, y, T))
            except RuntimeError:
                ctx.count("refused_queries")
