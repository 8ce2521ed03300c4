"""Multimodal equilibrium: every round keeps the demand, prices every alternative from its loading and moves towards the cheapest."""
import importlib.util
import math
import os
import random

import numpy as np

import mmor

RULE = ("one evaluation = one random multimodal network, whose equilibrium is computed with 1, 2 and 3 rounds; the flows, times, costs "
        "and gaps written are recomputed from the demand, the loading observed and the flows of the round before; distinct = "
        "different (network shape, fixed or growing path set, modes per pair)")
ASSUMPTIONS = ["every mode has at least one path in the network, and every pair a path in each mode it may use",
               "the driving table given holds the flows of trucks, those of cars being zero",
               "alternatives whose cost ties to the printed digits may be chosen either way",
               "rounds of two computations with one seed are compared when their loadings before were the same"]
TIMEOUT = 240
HERE = os.path.dirname(os.path.abspath(__file__))
VAR = [dict(pload=40, load=30), dict(pload=40, load=30, explicit_bus=0), dict(pload=60, load=40, flow_scalar=1),
       dict(pload=30, load=20, npaths=4, routes=3), dict(pload=20, load=60, tight=True)]
ROUNDS = 3


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def gen(tier, seed):
    n = 320 if tier == "quick" else 4000
    ss = [s for s in mod("C23").scenarios(seed, 4 * n, "C31", VAR) if s["mm"]["bt_paths"] and s["mm"]["pnr_paths"] and s["paths"]][:n]
    for i, s in enumerate(ss):
        rng = random.Random("C31t/%d/%d" % (seed, i))
        m = s["mm"]
        s["mm_routing"] = "Multimodal_DUE_ColumnGeneration" if i % 4 == 3 else "Multimodal_DUE_FixedPath"
        s["mmdue"] = dict(vot=rng.choice([10, 20, 36]), early_penalty=rng.choice([0, 10, 12]), late_penalty=rng.choice([15, 40]),
                          target_time=rng.choice([1, 5, 15, 40]), parking_lot_to_destination_walking_time=rng.choice([0, 60, 62]),
                          carpool_cost_multiplier=3, bus_fare=rng.choice([2, 2.5]), pnr_inconvenience=rng.choice([0, 1.25]),
                          bus_inconvenience=rng.choice([0, 0.75]), alpha1_driving=rng.choice([0.5, -1]), alpha1_transit=rng.choice([1.0, 0.25]),
                          alpha1_pnr=rng.choice([0.8, -0.5]), beta1=rng.choice([0.1, 0.5, 2]), step_size=rng.choice([0.1, 0.5, 0.9]))
        modes = {}
        for p in s["paths"]:
            p[1][:s["max_interval"]] = [0.0] * s["max_interval"]
            modes.setdefault((p[0][0], p[0][-1]), set()).add("driving")
        for p in m["bt_paths"]:
            modes.setdefault((p["o"], p["d"]), set()).add("transit")
        for p in m["pnr_paths"]:
            modes.setdefault((p["o"], p["d"]), set()).add("pnr")
        on, dn = ({r[0]: r[1] for r in s[k]} for k in ("origins", "dests"))
        have = {(on[r[0]], dn[r[1]]) for r in m["passengers"]}
        io, jd = {b: a for a, b in on.items()}, {b: a for a, b in dn.items()}
        for a, b in sorted(set(modes) - have):
            m["passengers"].append([io[a], jd[b], [round(rng.uniform(0, 20), 2) for _ in range(s["max_interval"])]])
        m["passengers"] = [r for r in m["passengers"] if (on[r[0]], dn[r[1]]) in modes]
        s["due_modes"] = [[a, b, sorted(v)] for (a, b), v in sorted(modes.items())]
        s.setdefault("files", {})["od_mode_connectivity"] = "#origin destination driving transit pnr\n" + "".join(
            "%d %d %d %d %d\n" % ((a, b) + tuple(int(x in modes[a, b]) for x in ("driving", "transit", "pnr"))) for a, b in sorted(modes))
    return [dict(scen=s) for s in ss]


def table(d, s):
    """[(origin, destination, mode, detail)], and the flows, times, costs and disutilities of each."""
    f = os.path.join(d, "record", "passenger_path_table")
    keys = []
    for x in open(f).read().splitlines()[1:]:
        w = x.split(None, 3)
        keys.append((int(w[0]), int(w[1]), {"bus": "transit"}.get(w[2], w[2]), w[3]))
    out = [keys]
    for e in ("_buffer", "_time", "_cost", "_disutility"):
        out.append([[float(y) for y in x.split()] for x in open(f + e).read().splitlines()])
    return out


def run(ctx, case):
    s = case["scen"]
    base = mod("C23")
    grow = s["mm_routing"].endswith("ColumnGeneration")
    modes = {(a, b): v for a, b, v in s["due_modes"]}
    ctx.sig((base.shape(s), grow, tuple(sorted(len(v) for v in modes.values()))))
    gaps, before, prev = [], [], None
    for n in range(1, ROUNDS + 1):
        s["mmdue"]["max_iter"] = n
        d = ctx.write(s, "r%d" % n)
        ctx.mon.config(1)
        ctx.mp.set_random_state(s["seed"] % (2 ** 31))
        o = ctx.ext.Mmdta()
        o.initialize_mmdue(d)
        ctx.mon.reset()
        o.run_mmdue(d, False)
        tab = table(d, s)
        if not ctx.expect(all(len(x) == len(tab[0]) for x in tab) and all(len(r) == s["max_interval"] for x in tab[1:] for r in x),
                          lambda: "round %d: %s rows of paths, flows, times, costs, disutilities" % (n, [len(x) for x in tab])):
            return
        g = [float(x) for x in open(os.path.join(d, "record", "gap_iteration")).read().split()]
        if not ctx.expect(len(g) == n, lambda: "%d rounds leave %d gaps" % (n, len(g))):
            return
        flows(ctx, s, n, tab, modes, grow, first=n == 1)
        gap(ctx, s, n, tab, g[-1])
        prices(ctx, s, n, tab, modes)
        saved(ctx, s, n, d, tab)
        segs = ctx.mon.segments()
        now = [history(x) for x in segs] if ctx.mon.mm else g
        same = now[:-1] == before and g[:-1] == gaps
        if not same:
            prev = None
            ctx.count("rounds_that_differ")
        before, gaps = now, g
        if ctx.mon.mm and ctx.expect(len(segs) == n, lambda: "%d loadings in %d rounds" % (len(segs), n)):
            loaded(ctx, s, n, tab, segs[-1], grow)
        valid(ctx, s, n, tab)
        if prev is not None and not grow:
            prev = step(ctx, s, n, prev, tab)
        else:
            if prev is not None:
                grown(ctx, s, n, prev, tab)
            prev = dict(flow={i: list(r) for i, r in enumerate(tab[1])}, dis=tab[4], keys=tab[0])
        ctx.count("rounds")


def history(seg):
    return hash((tuple(sorted((v.id, v.seen, v.gone, tuple(v.moves)) for v in seg.veh.values())),
                 tuple(sorted((p.id, p.seen, p.gone, tuple(p.moves)) for p in seg.pax.values()))))


def demand(s):
    on, dn = ({r[0]: r[1] for r in s[k]} for k in ("origins", "dests"))
    return {(on[r[0]], dn[r[1]]): r[2] for r in s["mm"]["passengers"]}


def pairs(keys):
    e = {}
    for i, k in enumerate(keys):
        e.setdefault(k[:2], []).append(i)
    return e


def flows(ctx, s, n, tab, modes, grow, first):
    keys, f = tab[:2]
    by = pairs(keys)
    want = demand(s)
    ctx.expect(set(by) == set(want), lambda: "round %d has paths for %s, demand for %s" % (n, sorted(by), sorted(want)))
    ctx.expect(len(set(keys)) == len(keys), lambda: "round %d lists a path twice" % n)
    for k, ix in by.items():
        if k not in want:
            continue
        ctx.expect({keys[i][2] for i in ix} == set(modes[k]), lambda: "round %d, pair %s: modes %s, open are %s" % (n, k, {keys[i][2] for i in ix}, modes[k]))
        for c in range(s["max_interval"]):
            x = [f[i][c] for i in ix]
            ctx.expect(min(x) >= 0, lambda: "round %d, pair %s, interval %d: flows %s" % (n, k, c, x))
            ctx.expect(abs(sum(x) - want[k][c]) < 1e-5 * len(x) + 1e-6 * want[k][c],
                       lambda: "round %d, pair %s, interval %d: %.6f travellers on %d paths, the demand is %.6f" % (n, k, c, sum(x), len(x), want[k][c]))
            ctx.count("columns")
            if first:
                for md in modes[k]:
                    y = sum(f[i][c] for i in ix if keys[i][2] == md)
                    ctx.expect(abs(y - want[k][c] / len(modes[k])) < 1e-5 * len(x), lambda: "pair %s, interval %d starts with %.6f of %.6f travellers in %s, one of %d modes"
                               % (k, c, y, want[k][c], md, len(modes[k])))


def gap(ctx, s, n, tab, got):
    keys, f, _, _, dis = tab
    num = den = 0.0
    for k, ix in pairs(keys).items():
        for c in range(s["max_interval"]):
            used = [(f[i][c], dis[i][c]) for i in ix if f[i][c] > 0]
            if not used:
                continue
            lo = min(y for _, y in used)
            num += sum(x * (y - lo) for x, y in used)
            den += sum(x for x, _ in used) * abs(lo)
    w = num / max(den, 1e-6)
    if math.isfinite(w) and den > 1:
        ctx.expect(abs(got - w) < 1e-5 + 1e-4 * w, lambda: "round %d: gap %.9g, flows and disutilities give %.9g" % (n, got, w))
        ctx.count("gaps")


def prices(ctx, s, n, tab, modes):
    P, u, T = s["mmdue"], float(s["unit_time"]), s["total_interval"]
    keys, f, tt, cost, dis = tab
    lot = {q["node"]: q for q in s["mm"]["lots"]}
    by = pairs(keys)
    for i, (a, b, md, rest) in enumerate(keys):
        for c in range(s["max_interval"]):
            st = c * s["assign_frq"]
            t = tt[i][c] / u
            if not math.isfinite(t):
                continue
            w = st + t - P["target_time"] * 60 / u
            y = P["vot"] / 3600 * u * t + max(P["late_penalty"] / 3600 * u * w, -P["early_penalty"] / 3600 * u * w)
            if md == "driving":
                q = lot.get(b)
                y += q["price"] * q["surge"] if q else 8.0
            else:
                y += P["bus_fare"] + P["bus_inconvenience" if md == "transit" else "pnr_inconvenience"]
                y *= 1e3 if t > T else 1
            ctx.expect(abs(cost[i][c] - y) < 1e-3 + 1e-4 * abs(y), lambda: "round %d: %s path %s from %d to %d at %d, %g s long, costs %.9g, expected %.9g"
                       % (n, md, rest, a, b, st, tt[i][c], cost[i][c], y))
            x = sum(f[j][c] for j in by[a, b] if keys[j][2] == md)
            if x > 1e-3 or n == 1:
                y = cost[i][c] + (P["alpha1_" + md] + math.log(x + 1e-9)) / P["beta1"]
                ctx.expect(abs(dis[i][c] - y) < 1e-5 + 1e-6 * abs(y) + 3e-6 * len(by[a, b]) / max(x, 1e-3) / P["beta1"],
                           lambda: "round %d: %s path %s from %d to %d at %d costs %.9g and the mode has %.6f travellers: disutility %.9g, expected %.9g"
                           % (n, md, rest, a, b, st, cost[i][c], x, dis[i][c], y))
                ctx.count("disutilities")


def nums(x):
    return [int(y) for y in x.replace("<", " ").replace(">", " ").split() if y.lstrip("-").isdigit()]


def saved(ctx, s, n, d, tab):
    """The tables of the modes, as left for later use, hold the same flows and the truck flows of the input."""
    keys, f = tab[:2]
    M = s["max_interval"]

    def rows(name):
        a = [x for x in open(os.path.join(d, name)).read().splitlines() if x.strip() and not x.startswith("#")]
        b = [x for x in open(os.path.join(d, name + "_buffer")).read().splitlines() if x.strip()]
        ctx.expect(len(a) == len(b), lambda: "round %d: %s has %d paths and %d rows of flows" % (n, name, len(a), len(b)))
        return {tuple(int(y) for y in x.split()): [float(y) for y in z.split()] for x, z in zip(a, b)}

    want = dict(driving={}, transit={}, pnr={})
    for k, r in zip(keys, f):
        w = nums(k[3])
        if k[2] == "driving":
            want["driving"][tuple(w[2:])] = r          # -1, lot, nodes
        elif k[2] == "transit":
            want["transit"][k[:2] + tuple(x for x in w if x > 0)] = r
        else:
            want["pnr"][k[:2] + (w[1], w[0]) + tuple(w[2:])] = r
    got = dict(driving=rows("driving_path_table"), transit=rows("bustransit_path_table"), pnr=rows("pnr_path_table"))
    truck = {tuple(p[0]): p[1][M:] for p in s["paths"]}
    for md in want:
        ctx.expect(set(got[md]) == set(want[md]), lambda: "round %d: %s paths saved %s, in use %s" % (n, md, sorted(set(got[md]) - set(want[md])), sorted(set(want[md]) - set(got[md]))))
        for p, r in got[md].items():
            w = want[md].get(p)
            if w is None:
                continue
            ctx.expect(np.allclose(r[:M], w, rtol=1e-5, atol=2e-5), lambda: "round %d: %s path %s saved with flows %s, in use %s" % (n, md, p, r[:M], w))
            if md == "driving":
                t = truck.get(p, [0.0] * M)
                ctx.expect(np.allclose(r[M:], t, rtol=1e-5, atol=2e-5), lambda: "round %d: trucks on path %s saved as %s, %s were given" % (n, p, r[M:], t))
            ctx.count("saved_paths")


def loaded(ctx, s, n, tab, seg, grow):
    """The last loading released the flows, and took the times the driving paths are priced by."""
    keys, f, tt = tab[:3]
    M, k, u, T = s["max_interval"], s["flow_scalar"], float(s["unit_time"]), s["total_interval"]
    pm = int(60 / s["unit_time"])
    minutes = s["assign_frq"] // pm if s["init_demand_split"] else 1
    got = {}
    for v in seg.veh.values():
        got[mmor.kind(v), v.o, v.d, v.assign] = got.get((mmor.kind(v), v.o, v.d, v.assign), 0) + 1
    for p in seg.pax.values():
        if not p.pnr:
            got["passenger", p.o, p.d, p.assign] = got.get(("passenger", p.o, p.d, p.assign), 0) + 1
    for (a, b), ix in pairs(keys).items():
        for c in range(M):
            for md, name in (("driving", "car"), ("transit", "passenger"), ("pnr", "pnr")):
                x = k * sum(f[i][c] for i in ix if keys[i][2] == md)
                y = got.get((name, a, b, c), 0)
                ctx.expect(abs(x - y) < minutes + 1e-4 * k, lambda: "round %d, pair %d %d, interval %d: %d %s released, the flows ask for %.6f" % (n, a, b, c, y, name, x))
                ctx.count("releases")
    h = mmor.MM(s, seg)
    c12 = mod("C12")
    s2 = dict(s, kind="mcdta")
    L = {l[0]: l for l in s["links"]}
    by = {}
    for l in s["links"]:
        by.setdefault((l[1], l[2]), []).append(l[0])
    cur = {l: [thin(c12, x) for x in v] for l, v in h.curves(cls=0).items()}
    lot = {q["node"]: q for q in s["mm"]["lots"]}
    G = {l: c12.Link(s2, L[l], 0) for l in L}
    if s["total_interval"] != h.T:
        return
    for i, (a, b, md, rest) in enumerate(keys):
        if md != "driving":
            continue
        ns = nums(rest)[2:]
        ls = [by.get((x, y), []) for x, y in zip(ns, ns[1:])]
        ctx.expect(ns[0] == a and ns[-1] == b and all(ls), lambda: "round %d: path %s does not lead from %d to %d" % (n, ns, a, b))
        if any(len(x) != 1 for x in ls):
            continue
        for c in range(M):
            ts = {c * s["assign_frq"]}
            for (l,) in ls:
                ts = {t + c12.up(x) for t in ts for x in c12.travel(cur[l][0], cur[l][1], min(t, T - 1) + 1, T, G[l].ff)}
            q = lot.get(b)
            w = set()
            for t in ts:
                for x in cruise(seg, q, t, u, T) if q else {0}:
                    w.add((t + x + math.ceil(s["mmdue"]["parking_lot_to_destination_walking_time"] / u) - c * s["assign_frq"]) * u)
            ctx.expect(any(abs(tt[i][c] - x) < 1e-3 for x in w), lambda: "round %d: path %s entered at %d takes %g s, the loading says %s" % (n, ns, c * s["assign_frq"], tt[i][c], sorted(w)))
            ctx.count("driving_times")


def valid(ctx, s, n, tab):
    """Every path leads from the origin to the destination, a park-and-ride one through its lot."""
    TL = {l["id"]: l for l in s["mm"]["tl"]}
    lot = {q["node"]: q["id"] for q in s["mm"]["lots"]}
    road = {(l[1], l[2]) for l in s["links"]}
    for a, b, md, rest in tab[0]:
        w = nums(rest)
        say = lambda: "round %d: %s path %s does not lead from %d to %d" % (n, md, rest, a, b)
        if md == "driving":
            ns, ls, end = w[2:], [], b
        elif md == "pnr":
            x = nums(rest.split("<")[1])
            ns, ls, end = x, nums(rest.split("<")[2]), w[0]
            ctx.expect(lot.get(w[0]) == w[1], lambda: "round %d: %s path %s names lot %d at node %d" % (n, md, rest, w[1], w[0]))
        else:
            ns, ls, end = [a], nums(rest.split("<")[2]), a
        ctx.expect(ns and ns[0] == a and ns[-1] == end and all(x in road for x in zip(ns, ns[1:])) and len(set(ns)) == len(ns), say)
        if md == "driving":
            continue
        pos = end
        for l in ls:
            if l not in TL or TL[l]["a"] != pos:
                pos = None
                break
            pos = TL[l]["b"]
        ctx.expect(ls and pos == b, say)
        ctx.count("paths")


def grown(ctx, s, n, prev, tab):
    """With a growing path set the alternatives known already follow the same rule, towards one more path at most."""
    old = {k: i for i, k in enumerate(prev["keys"])}
    ctx.expect(set(old) <= set(tab[0]), lambda: "round %d lost paths %s" % (n, sorted(set(old) - set(tab[0]))))
    ctx.count("paths_found", len(tab[0]) - len(old))
    for k, ix in pairs(tab[0]).items():
        for c in range(s["max_interval"]):
            F = {i: prev["flow"][old[tab[0][i]]][c] if tab[0][i] in old else 0.0 for i in ix}
            got = {i: tab[1][i][c] for i in ix}
            up = [i for i in ix if F[i] == 0 and got[i] > 0]
            ctx.expect(len(up) <= 1, lambda: "round %d, pair %s, interval %d: %d paths came into use" % (n, k, c, len(up)))
            used = [i for i in ix if F[i] > 1e-4]
            if not used:
                continue
            dis = {i: prev["dis"][old[tab[0][i]]][c] for i in used}
            if not all(math.isfinite(x) for x in dis.values()):
                continue
            mean = sum(dis.values()) / len(dis)
            for i in used:
                ctx.expect(got[i] > (1 - s["mmdue"]["step_size"]) * F[i] - 1e-5 - 1e-4 * F[i], lambda: "round %d, pair %s, interval %d: path %s went from %.6f to %.6f travellers, the step is %g"
                           % (n, k, c, tab[0][i], F[i], got[i], s["mmdue"]["step_size"]))
                if all(x > 1e-4 for x in (F[j] for j in ix if F[j] > 0)):
                    ctx.expect(got[i] <= F[i] + 2e-6 or dis[i] < mean + 1e-4, lambda: "round %d, pair %s, interval %d: path %s with disutility %.6f against a mean of %.6f went from %.6f to %.6f travellers"
                               % (n, k, c, tab[0][i], dis[i], mean, F[i], got[i]))
                ctx.count("flow_updates_growing")


def thin(c12, v):
    ix = [0] + [i for i in range(1, len(v)) if v[i] != v[i - 1]]
    return c12.Curve(np.array([[i, v[i]] for i in ix], dtype=float))


def cruise(seg, q, t, u, T):
    occ = 0.0
    for a, _, c in seg.lots.get(q["id"], []):
        if a + 1 <= min(t, T):
            occ = c
    x = q["time"] / u
    if t > 0:
        x = 10 * x if occ >= q["cap"] else x / (1 - occ / q["cap"])
    return {math.ceil(x - 1e-6), math.ceil(x + 1e-6)}


def step(ctx, s, n, prev, tab):
    """The flows of this round follow from those and the disutilities of the round before."""
    if not ctx.expect(prev["keys"] == tab[0], lambda: "round %d lists other paths" % n):
        return dict(flow={i: list(r) for i, r in enumerate(tab[1])}, dis=tab[4], keys=tab[0])
    F = {i: list(r) for i, r in prev["flow"].items()}
    for k, ix in pairs(tab[0]).items():
        for c in range(s["max_interval"]):
            dis = {i: prev["dis"][i][c] for i in ix}
            got = {i: tab[1][i][c] for i in ix}
            fin = [i for i in ix if math.isfinite(dis[i])]
            used = [i for i in ix if F[i][c] > 0]
            if not fin or any(i not in fin for i in used):
                for i in ix:
                    F[i][c] = got[i]
                continue
            lo = min(dis[i] for i in fin)
            best = [i for i in fin if dis[i] - lo < 3e-6]
            if len(best) > 1 and not all(i in used for i in best):
                for i in ix:
                    F[i][c] = got[i]
                continue
            act = sorted(set(used) | set(best[:1]))
            mean = sum(dis[i] for i in act) / len(act)
            rate = [s["mmdue"]["step_size"] * F[i][c] / (dis[i] - mean) for i in act if dis[i] - mean > 1e-4]
            near = any(abs(dis[i] - mean) <= 1e-4 for i in act) and len(act) > 1
            if near or (rate and min(rate) <= 0):
                for i in ix:
                    F[i][c] = got[i]
                continue
            tau = min(rate) if rate else 0.0
            for i in ix:
                w = F[i][c] - tau * (dis[i] - mean) if i in act else F[i][c]
                tol = 2e-6 + 1e-6 * abs(w) + tau * 4e-6 * (1 + max(abs(dis[j] - mean) for j in act) / min([dis[j] - mean for j in act if dis[j] - mean > 1e-4] or [1.0]))
                ctx.expect(abs(got[i] - w) < tol, lambda: "round %d, pair %s, interval %d: %.6f travellers on %s path %s, %.6f expected from %.6f with disutility %.6f against a mean of %.6f"
                           % (n, k, c, got[i], tab[0][i][2], tab[0][i][3], w, F[i][c], dis[i], mean))
                F[i][c] = w if w < 1e-4 else got[i]
                ctx.count("flow_updates")
                ctx.count("flows_moved", int(tau > 0 and i in act))
    return dict(flow=F, dis=tab[4], keys=tab[0])
