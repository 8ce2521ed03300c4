"""Equilibrium (DUE) and system-optimum (DSO) iterations: feasible path flows, right costs and gaps, sensible moves."""
import importlib.util
import os
import random

import numpy as np
import oracle
import wl

RULE = ("one evaluation = 2 scenarios, each run for 1..k iterations; after every iteration the saved path table, flows, "
        "times and disutilities, the gap row and the move to the next flows are judged; distinct = scenario shapes x methods")
ASSUMPTIONS = ["a run of k+1 iterations with the same random state repeats the first k (C09)",
               "marginal link times of the system optimum are not recomputed, only what follows from them"]
TIMEOUT = 150
HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


VAR = [dict(ltypes=["PQ", "CTM"], load=20), dict(ltypes=["PQ", "CTM"], load=50, tight=True),
       dict(ltypes=["CTM"], load=60, tight=True, inner=6), dict(ltypes=["PQ", "CTM", "LQ"], load=40, tight=True, inner=7, nO=2, nD=2),
       dict(ltypes=["PQ", "CTM"], load=2.5, inner=6, nO=3, nD=1), dict(ltypes=["CTM"], load=6, tight=True, inner=8, npaths=6)]


def gen(tier, seed):
    n = 480 if tier == "quick" else 800
    ss = wl.scenarios(seed, n, "dta", "C15", VAR, routing="Due", cyclic=True, horizon=300)
    for i, s in enumerate(ss):
        rng = random.Random("C15t/%d/%d" % (seed, i))
        s["due"] = rng.choice(["MSA", "MSA", "GP", "DTC"])
        s["so"] = "LQ" not in VAR[i % len(VAR)]["ltypes"] and rng.random() < 0.3
        if rng.random() < 0.15 and not s["so"]:
            s["total_interval"] = -1
        else:
            s["total_interval"] = max(s["total_interval"], 300)
        s["vot"] = None
        for l in s["links"]:      # no free-flow time right on a whole interval: either rounding would be right
            while True:
                x = l[4] * 1600.0 / (l[5] * 1600.0 / 3600.0 * s["unit_time"])
                if abs(x - round(x)) > 1e-6:
                    break
                l[4] = round(l[4] * 1.013, 5)
        s["sections"] = {"DUE": dict(vot=rng.choice([5, 20, 60.5]), early_penalty=rng.choice([0, 4, 12.5]), late_penalty=rng.choice([0, 10, 30]),
                                     target_time=rng.choice([0, 2, 5, 12.5]), **{"lambda": rng.choice([0.05, 0.3, 0.7, 1.0])})}
        if rng.random() < 0.4:
            t = {l[0]: round(rng.uniform(0, 0.5), 3) for l in s["links"] if rng.random() < 0.5}
            if t:
                s["tolls"] = {str(k): v for k, v in t.items()}
                s.setdefault("files", {})["MNM_input_link_toll"] = "#link toll\n" + "".join("%d %s\n" % kv for kv in t.items())
                s["conf"] = dict(s.get("conf", {}), num_of_tolled_link=len(t))
    return wl.chunks(ss, 2)


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def table(fn):
    return [[float(x) for x in r.split()] for r in open(fn).read().split("\n") if r.strip()]


def one(ctx, s, d):
    c12, c11 = mod("C12"), mod("C11")
    what = ("DSO " if s["so"] else "DUE ") + s["due"]
    dtc = s["due"] == "DTC"
    ctx.sig(what + " " + wl.shape(s))
    rec = os.path.join(d, "record")
    K = 4
    hist = []
    segs = []
    for k in range(1, K + 1):
        ctx.mp.set_random_state(s["seed"] % 2 ** 31)
        ctx.mon.config(1 if k == K else 0)
        ctx.mon.reset()
        o = ctx.ext.Dta()
        (o.run_dso if s["so"] else o.run_due)(k, d, False, dtc, "GP" if s["due"] == "GP" else "MSA")
        del o
        paths = [[int(x) for x in r] for r in table(os.path.join(rec, "path_table"))]
        flow, time, dis = (np.array(table(os.path.join(rec, "path_table" + x))) for x in ("_buffer", "_time", "_disutility"))
        gap = table(os.path.join(rec, "gap_iteration"))
        hist.append((paths, flow, time, dis, gap))
        ctx.count("iterations")
    segs = ctx.mon.segments()
    C = s["max_interval"]
    u = float(s["unit_time"])
    dem = {}
    on, dn = dict(map(tuple, s["origins"])), dict(map(tuple, s["dests"]))
    for r in s["demand"]:
        dem[on[r[0]], dn[r[1]]] = np.array(r[2])
    by = {(l[1], l[2]): l[0] for l in s["links"]}
    q = s["sections"]["DUE"]
    prev = None
    for k, (paths, flow, time, dis, gap) in enumerate(hist):
        tag = "%s iteration %d: " % (what, k + 1)
        if not ctx.expect(flow.shape == (len(paths), C) and time.shape == flow.shape and dis.shape == flow.shape,
                          tag + "tables of shape %s %s %s for %d paths" % (flow.shape, time.shape, dis.shape, len(paths))):
            return
        ctx.expect(len(gap) == k + 1 and all(len(r) == 2 for r in gap), tag + "%d gap rows" % len(gap))
        ctx.expect(len(set(map(tuple, paths))) == len(paths), tag + "a path is listed twice")
        groups = {}
        for i, p in enumerate(paths):
            ctx.expect((p[0], p[-1]) in dem and all(e in by for e in zip(p, p[1:])), lambda: tag + "%s is not a path of the network" % p)
            groups.setdefault((p[0], p[-1]), []).append(i)
        ctx.expect(set(groups) == set(dem), tag + "pairs %s instead of %s" % (sorted(groups), sorted(dem)))
        ctx.expect(np.isfinite(flow).all() and flow.min() >= -1e-6, lambda: tag + "a path flow is %g" % flow.min())
        tot = 0.0
        base = 0.0
        tot2 = base2 = 0.0        # should every path count as used (gradient projection leaves traces too small to print)
        for od, ii in groups.items():
            f = flow[ii]
            if dtc:
                ctx.expect(abs(f.sum() - dem[od].sum()) <= 2e-6 * f.size + 1e-9, lambda: tag + "flows of %s add up to %.6f, the demand is %.6f" % (od, f.sum(), dem[od].sum()))
                tot += ((dis[ii] - dis[ii].min()) * f).sum()
            else:
                e = np.abs(f.sum(0) - dem[od])
                ctx.expect(e.max() <= 2e-6 * len(ii) + 1e-9, lambda: tag + "flows of %s per interval are %s, the demand is %s" % (od, f.sum(0), dem[od]))
                for c in range(C):
                    pos = f[:, c] > 0
                    if pos.any():
                        lo = dis[ii, c][pos].min()
                        tot += ((dis[ii, c] - lo) * f[:, c])[pos].sum()
                        base += lo * f[:, c][pos].sum()
                        lo = dis[ii, c].min()
                        tot2 += ((dis[ii, c] - lo) * f[:, c])[pos].sum()
                        base2 += lo * f[:, c][pos].sum()
            ctx.count("pairs")
        # the gap, as far as six printed digits allow
        tiny = (flow != 0) & (flow < 2e-6)
        near = 3e-6 * (np.abs(dis).sum() + flow.sum() + 1)
        if not tiny.any():
            if dtc:
                ctx.expect(abs(gap[k][0] - tot) <= near + 1e-5 * abs(tot), lambda: tag + "gap %.6f, the tables say %.6f" % (gap[k][0], tot))
            elif s["due"] == "GP" and base2 > 1e-3:
                e = 2e-6 + 3 * near / base2
                ctx.expect(tot / base - e <= gap[k][0] <= tot2 / base2 + e, lambda: tag + "gap %.6f, the tables say between %.6f and %.6f" % (gap[k][0], tot / base, tot2 / base2))
            elif s["due"] == "MSA" and base > 1e-3:
                ctx.expect(abs(gap[k][0] - tot / base) <= 2e-6 + 3 * near / base, lambda: tag + "gap %.6f, the tables say %.6f" % (gap[k][0], tot / base))
        ctx.expect(not (gap[k][0] < -1e-9), lambda: tag + "negative gap %g" % gap[k][0])
        tt = time / u
        dep = np.arange(C)[None, :] * float(s["assign_frq"])
        ctx.expect(np.abs(tt - np.round(tt)).max() < 1e-5 and tt.min() >= 1, tag + "travel times are not whole intervals")
        tt = np.round(tt)
        if not s["so"]:
            arr = dep + tt
            tgt = q["target_time"] * 60.0 / u
            want = (q["vot"] * tt + np.where(arr >= tgt, q["late_penalty"] * (arr - tgt), q["early_penalty"] * (tgt - arr))) / 3600.0 * u
            e = np.abs(want - dis)
            ctx.expect(e.max() <= 2e-6, lambda: tag + "disutility %s, travel times say %s" % (dis.flat[e.argmax()], want.flat[e.argmax()]))
            t = (tt * flow).sum()
            ctx.expect(abs(gap[k][1] - t) <= 2e-6 * tt.sum() + 1e-6, lambda: tag + "total travel time %.6f, the tables say %.6f" % (gap[k][1], t))
        else:
            ctx.expect(np.abs(dis - tt).max() < 1e-5, tag + "the marginal cost is not the marginal travel time")
        if len(segs) == K:
            loaded(ctx, s, tag, segs[k], paths, flow, tt, groups, dem, by, c11, c12, hist[k + 1] if k + 1 < K else None, k)
        ctx.count("path_flows", flow.size)


def loaded(ctx, s, tag, seg, paths, flow, tt, groups, dem, by, c11, c12, nxt, k):
    """Against the loading the monitor saw: releases follow the flows, times follow from the curves, flow moves to the best route."""
    h = oracle.History(s, seg)
    T = h.T
    C = s["max_interval"]
    af = s["assign_frq"]
    chain = {tuple(p): tuple(by[e] for e in zip(p, p[1:])) for p in paths}
    back = {v: k for k, v in chain.items()}
    cnt = {}
    for v in seg.veh.values():
        c = v.start // af
        cnt[v.o, v.d, c] = cnt.get((v.o, v.d, c), 0) + 1
        ls = tuple(x[0] for x in h.visits[v.id])
        if v.gone is not None:
            ctx.expect(ls in back and back[ls][0] == v.o and back[ls][-1] == v.d, lambda: tag + "a vehicle drove %s, not one of the paths" % (ls,))
    for od, ii in groups.items():
        for c in range(C):
            n = cnt.get((od[0], od[1], c), 0)
            w = flow[ii, c].sum() * s["flow_scalar"]
            slack = af if s["init_demand_split"] else 1
            ctx.expect(abs(n - w) <= slack + 1e-3, lambda: tag + "%d vehicles released from %d to %d in interval %d, the flows say %.3f" % (n, od[0], od[1], c, w))
    cur = h.curves()
    G = {l[0]: c12.Link(s, l, 0) for l in s["links"]}
    if any(len(g.ff) > 1 for g in G.values()):
        ctx.count("edge_rounding")
        return
    ticks = np.arange(T + 1.0)
    cin = {l: c12.Curve(np.column_stack([ticks, cur[l][0]])) for l in G}
    cout = {l: c12.Curve(np.column_stack([ticks, cur[l][1]])) for l in G}
    H = s["total_interval"] if s["total_interval"] > 0 else C * af
    lt = {l: [max(c12.travel(cin[l], cout[l], t + 1, T, G[l].ff)) for t in range(H)] for l in G}
    if s["so"]:
        return
    for i, p in enumerate(paths):
        for c in range(C):
            t = c * af
            for l in chain[tuple(p)]:
                t += c11.up(lt[l][min(t, H - 1)])
            ctx.expect(t - c * af == tt[i, c], lambda: tag + "path %s departing at %d takes %g intervals, the curves say %d" % (p, c * af, tt[i, c], t - c * af))
            ctx.count("path_times")
    if nxt is None:
        return
    # moves
    vot = s["sections"]["DUE"]["vot"] / 3600.0 * s["unit_time"]
    toll = {l: s.get("tolls", {}).get(str(l), 0.0) for l in lt}
    cost = {l: [vot * x + toll[l] for x in lt[l]] for l in lt}
    links = [(l[0], l[1], l[2]) for l in s["links"]]
    nodes = [n[0] for n in s["nodes"]]
    D = {dd: c11.solve(links, cost, lt, H, dd, nodes) for dd in {od[1] for od in groups}}

    def value(p, c, t=None):
        t, v = c * af if t is None else t, 0.0
        for e in zip(p, p[1:]):
            l = by[e]
            v += cost[l][min(t, H - 1)]
            t += c11.up(lt[l][min(t, H - 1)])
        return v
    if s["due"] == "DTC":
        old = {tuple(p): flow[i] for i, p in enumerate(paths)}
        new = {tuple(p): nxt[1][i] for i, p in enumerate(nxt[0])}
        ctx.expect(set(old) <= set(new), tag + "a path was dropped")
        step = s["sections"]["DUE"]["lambda"] / (k + 1)
        for od in groups:
            gain = 0
            for p in new:
                if (p[0], p[-1]) != od:
                    continue
                dlt = new[p] - old.get(p, np.zeros(C))
                gain += int((dlt > 2e-6).sum())
                for c in np.flatnonzero(dlt > 2e-6):     # a cheapest path of some departure of the interval that gains
                    ts = range(c * af, min(H, (c + 1) * af) if c < C - 1 else H)
                    ctx.expect(any(abs(value(p, c, t) - D[od[1]][od[0]][t]) <= 1e-9 + 1e-9 * abs(D[od[1]][od[0]][t]) for t in ts),
                               lambda: tag + "flow moves to %s in interval %d, where it is never a cheapest path" % (p, c))
                lim = max(step, step * dem[od].sum()) + 3e-6
                ctx.expect(dlt.min() >= -lim, lambda: tag + "path %s loses %.6f in one iteration, the step allows %.6f" % (p, -dlt.min(), lim))
            ctx.expect(gain <= 1, lambda: tag + "%d paths and departure times gain flow for %s" % (gain, od))
            ctx.count("moves", gain)
        return
    p2, f2 = nxt[0], nxt[1]
    old = {tuple(p): flow[i] for i, p in enumerate(paths)}
    new = {tuple(p): f2[i] for i, p in enumerate(p2)}
    ctx.expect(set(old) <= set(new), tag + "a path was dropped")
    lam = s["sections"]["DUE"]["lambda"] / (k + 1) ** 0.5

    for od in groups:
        mine = [p for p in new if (p[0], p[-1]) == od]
        for c in range(C):
            best = D[od[1]][od[0]][c * af]
            add = [p for p in mine if p not in old]
            for p in add:
                ctx.expect(any(abs(value(p, x) - D[od[1]][od[0]][x * af]) <= 1e-9 + 1e-9 * best for x in range(C)), lambda: tag + "the added path %s is not a cheapest one" % (p,))
            up = [p for p in mine if new[p][c] > old.get(p, np.zeros(C))[c] + 2e-6]
            if s["due"] == "MSA":
                ctx.expect(len(up) <= 1, lambda: tag + "several paths gain flow: %s" % up)
                for p in up:
                    ctx.expect(abs(value(p, c) - best) <= 1e-9 + 1e-9 * best, lambda: tag + "flow moves to %s of cost %.9g, the cheapest costs %.9g" % (p, value(p, c), best))
                lose = [p for p in mine if p in old and p not in up and old[p][c] > 1e-5]
                keep = [p for p in lose if abs(new[p][c] - old[p][c]) <= 2e-6]
                ctx.expect(len(keep) <= (0 if up else 1) or lam * max(old[p][c] for p in keep) < 4e-6, lambda: tag + "paths %s keep their flow" % keep)
                for p in lose:
                    if p not in keep:
                        ctx.expect(abs(new[p][c] - old[p][c] * (1 - lam)) <= 3e-6, lambda: tag + "flow %.6f becomes %.6f with a step of %.6f" % (old[p][c], new[p][c], lam))
            ctx.count("moves", len(up))
