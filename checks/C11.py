"""Time-dependent shortest paths are optimal, and the reported cost and time are those of the reported route."""
import math
import os
import random

import numpy as np
import wl

RULE = ("one evaluation = 6 random graphs with time-dependent travel times and costs (array and text input, turning costs), "
        "every node and start time of every destination's tree judged by an independent dynamic programme; or two-class "
        "loadings whose cheapest paths are recomputed from the travel times they report; distinct = graphs")
ASSUMPTIONS = ["travel times are rounded up to whole intervals, at least one; after the last interval its costs stay in force",
               "with turning travel times a route is only required to be connected (the search commits to one exit per node and time)"]
TIMEOUT = 120


def gen(tier, seed):
    k = 96 if tier == "quick" else 1200
    r = [dict(seed="%d/%d" % (seed, i), n=6) for i in range(k)]
    m = 72 if tier == "quick" else 900
    r += wl.chunks(wl.scenarios(seed, m, "mcdta", "C11", [dict(routing="Biclass_Hybrid"), dict(routing="Biclass_Hybrid", ltypes=["CTM", "PQ"], load=60, tight=True)]), 3)
    return r


def up(x):
    if x < 1:
        return 1
    k = int(x)
    return k if abs(x - k) <= 1e-4 * max(x, k) else k + 1


def solve(links, cost, tt, T, dest, nodes):
    """dist[n][t]: least cost from n at t to dest (Bellman on the time-expanded graph)."""
    INF = math.inf
    D = {n: [INF] * T for n in nodes}
    for t in range(T):
        D[dest][t] = 0.0
    # last interval: static shortest paths
    for _ in range(len(nodes)):
        ch = False
        for l, a, b in links:
            v = cost[l][T - 1] + D[b][T - 1]
            if v < D[a][T - 1]:
                D[a][T - 1] = v
                ch = True
        if not ch:
            break
    for t in range(T - 2, -1, -1):
        for l, a, b in links:
            if a == dest or math.isinf(cost[l][t]):
                continue
            v = cost[l][t] + D[b][min(T - 1, t + up(tt[l][t]))]
            if v < D[a][t]:
                D[a][t] = v
    return D


def solve_turns(links, cost, tt, ntt, nco, T, dest, nodes):
    """The same with turning times and costs: a node's exit is the one of its arrival time; the last interval has none.

    Only for costs without ties.
    """
    D = solve(links, cost, tt, T, dest, nodes)
    D = {n: [math.inf] * (T - 1) + [D[n][T - 1]] for n in nodes}
    B = {n: [None] * T for n in nodes}
    for l, a, b in links:
        if a != dest and math.isfinite(D[b][T - 1]) and cost[l][T - 1] + D[b][T - 1] == D[a][T - 1]:
            B[a][T - 1] = l
    D[dest] = [0.0] * T
    for t in range(T - 2, -1, -1):
        for l, a, b in links:
            if a == dest:
                continue
            t1, c, w = min(T - 1, t + up(tt[l][t])), cost[l][t], tt[l][t]
            k = (l, B[b][t1])
            if k in ntt:
                c += nco[k][t1]
                w += ntt[k][t1]
            v = c + D[b][min(T - 1, t + up(w))]
            if v < D[a][t]:
                D[a][t], B[a][t] = v, l
    return D


def close(a, b, tol):
    return (math.isinf(a) and math.isinf(b)) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def walk(ctx, tag, res, links, cost, tt, T, src, dest, t0, ntt=None, ncost=None):
    """Follow the reported route; return (cost, time) or None if it is broken."""
    ends = {l: (a, b) for l, a, b in links}
    nodes = res[:, 0].astype(int).tolist()
    ls = res[:-1, 1].astype(int).tolist()
    if not ctx.expect(nodes[0] == src and nodes[-1] == dest and res[-1, 1] == -1, tag + ": route %s does not lead from %d to %d" % (nodes, src, dest)):
        return None
    for i, l in enumerate(ls):
        if not ctx.expect(ends.get(l) == (nodes[i], nodes[i + 1]), tag + ": link %d does not join %d and %d" % (l, nodes[i], nodes[i + 1])):
            return None
    t, c, w = t0, 0.0, 0.0
    for i, l in enumerate(ls):
        if i and ntt is not None and (ls[i - 1], l) in ntt:
            c += ncost[(ls[i - 1], l)][t]
            w += ntt[(ls[i - 1], l)][t]
            t = min(T - 1, t + int(math.ceil(ntt[(ls[i - 1], l)][t])))
        c += cost[l][t]
        w += tt[l][t]
        t = min(T - 1, t + up(tt[l][t]))
    return c, w


def graphs(ctx, case):
    for i in range(case["n"]):
        rng = random.Random("C11/%s/%d" % (case["seed"], i))
        n = rng.randint(2, 9)
        T = rng.choice([1, 2, 5, 12, 30])
        nodes = rng.sample(range(1, 200), n)
        links = []
        for _ in range(rng.randint(1, 3 * n)):
            a, b = rng.sample(nodes, 2)
            links.append((len(links) * 3 + rng.randint(1, 3), a, b))
        nodes = sorted({x for l in links for x in l[1:]})
        ctx.sig("%d %d %d %s" % (len(nodes), len(links), T, case["seed"]))
        q = rng.choice([1.0, 0.25, 0.25])
        same = rng.random() < 0.3
        tt, cost = {}, {}
        for l, _a, _b in links:
            base = rng.choice([0, 1, 2, 6])
            tt[l] = [max(0.25, round((base + rng.randint(0, 8 if rng.random() < 0.5 else 2)) / q) * q * rng.choice([1, q])) for _ in range(T)]
            tt[l] = [round(x * 4) / 4.0 for x in tt[l]]
            cost[l] = list(tt[l]) if same else [rng.choice([0.0, rng.randint(0, 5), rng.uniform(0, 9)]) for _ in range(T)]
            if rng.random() < 0.05:
                cost[l] = [1e5 + rng.random() for _ in range(T)]
        turns = [(a[0], b[0]) for a in links for b in links if a[2] == b[1] and rng.random() < 0.6]
        mode = rng.choice(["none", "none", "zero", "cost", "tt"]) if turns else "none"
        frac = rng.choice([1.0, 4.0])
        ntt = {k: [rng.randint(0, int(2 * frac)) / frac if mode == "tt" else 0.0 for _ in range(T)] for k in turns}
        if mode == "tt":
            cost = {l: [rng.uniform(0.01, 9) for _ in range(T)] for l in cost}
        nco = {k: [rng.uniform(0, 3) if mode in ("tt", "cost") and t < T - 1 else 0.0 for t in range(T)] for k in turns}
        d = os.path.join(ctx.tmp, "g%d" % i)
        os.makedirs(d)
        with open(os.path.join(d, "config.conf"), "w") as f:
            f.write("[Network]\nnetwork_name = Snap\nnum_of_link = %d\nnum_of_node = %d\n" % (len(links), len(nodes)))
        with open(os.path.join(d, "Snap"), "w") as f:
            f.write("# id from to\n" + "".join("%d %d %d\n" % l for l in links))
        nn = len(turns) if mode != "none" else -1
        ts = ctx.ext.Tdsp()
        ts.initialize(d, T, len(links), nn)
        text = rng.random() < 0.4
        order = links[:]
        rng.shuffle(order)
        if text:
            for name, m in (("td_link_tt", tt), ("td_link_cost", cost)):
                with open(os.path.join(d, name), "w") as f:
                    f.write("link_ID\n" + "".join("%d %s\n" % (l[0], " ".join("%.9g" % x for x in m[l[0]])) for l in order))
            for name, m in (("td_node_tt", ntt), ("td_node_cost", nco)):
                with open(os.path.join(d, name), "w") as f:
                    f.write("node_ID in_link_ID out_link_ID\n" + "".join("0 %d %d %s\n" % (k + (" ".join("%.9g" % x for x in m[k]),)) for k in turns))
            ts.read_td_cost_txt(d, "td_link_tt", "td_node_tt", "td_link_cost", "td_node_cost")
        else:
            A = [np.array([[l[0]] + m[l[0]] for l in order], dtype=float) for m in (tt, cost)]
            B = [np.array([[0, k[0], k[1]] + m[k] for k in turns], dtype=float).reshape(len(turns), T + 3) for m in (ntt, nco)]
            lay = rng.choice(["C", "F", "view"])
            if lay == "F":
                A, B = [np.asfortranarray(x) for x in A], [np.asfortranarray(x) for x in B]
            elif lay == "view":
                A = [np.concatenate([x, x + 1], axis=1)[:, :x.shape[1]] for x in A]
                B = [np.concatenate([x, x + 1], axis=1)[:, :x.shape[1]] for x in B]
            ts.read_td_cost_py(A[0], A[1], B[0], B[1])
        tol = 1e-5 if text else 1e-9
        for dest in rng.sample(nodes, min(len(nodes), 3)):
            ts.build_tdsp_tree(dest)
            D = solve(links, cost, tt, T, dest, nodes)
            E = solve_turns(links, cost, tt, ntt, nco, T, dest, nodes) if mode == "tt" else None
            for src in nodes:
                for t in range(T):
                    r = ts.extract_tdsp(src, t)
                    ctx.count("trees_entries")
                    tag = "from %d at %d to %d (%s, turning costs: %s)" % (src, t, dest, "text" if text else "array", mode)
                    if src == dest:
                        ctx.expect(r.shape == (1, 4) and r[0, 2] == 0 and r[0, 3] == 0, tag + ": not free")
                        continue
                    if math.isinf(D[src][t]):
                        ctx.expect(math.isinf(r[0, 2]), tag + ": unreachable, reported cost %g" % r[0, 2])
                        continue
                    if mode in ("none", "zero"):
                        ctx.expect(close(r[0, 2], D[src][t], tol), lambda: tag + ": cost %.9g, the optimum is %.9g" % (r[0, 2], D[src][t]))
                    elif mode == "tt":
                        ctx.expect(close(r[0, 2], E[src][t], tol), lambda: tag + ": cost %.9g, turning included it is %.9g" % (r[0, 2], E[src][t]))
                    elif mode == "cost":
                        ctx.expect(r[0, 2] >= D[src][t] - tol * max(1, D[src][t]), lambda: tag + ": cost %.9g below the optimum without turning costs %.9g" % (r[0, 2], D[src][t]))
                    w = walk(ctx, tag, r, links, cost, tt, T, src, dest, t, *((ntt, nco) if mode in ("cost", "tt") else ()))
                    if w and (mode != "tt" or (r[:, 0] == src).sum() == 1):
                        ctx.expect(close(r[0, 3], w[1], tol), lambda: tag + ": travel time %.9g, the route takes %.9g" % (r[0, 3], w[1]))
                        if mode != "tt":
                            ctx.expect(close(r[0, 2], w[0], tol), lambda: tag + ": cost %.9g, the route costs %.9g" % (r[0, 2], w[0]))


def loaded(ctx, s, d):
    vot = s["vot"] if s.get("vot") is not None else 20.0
    rng = random.Random("C11t/%d" % s["seed"])
    tolls = {l[0]: round(rng.uniform(0, 1.5), 2) for l in s["links"] if rng.random() < 0.4} if rng.random() < 0.6 else {}
    if tolls:
        s["files"] = {"MNM_input_link_toll": "#link car truck\n" + "".join("%d %s %s\n" % (l, t, t * 2) for l, t in tolls.items())}
        s["conf"] = dict(num_of_tolled_link=len(tolls))
        d = ctx.write(s, os.path.basename(d))
    o = ctx.load(s, d)
    ctx.sig(wl.shape(s))
    o.build_link_cost_map(False)
    o.update_tdsp_tree()
    M = s["assign_frq"] * s["max_interval"]
    reg = [int(x) for x in o.registered_links]
    ends = {l[0]: (l[0], l[1], l[2]) for l in s["links"]}
    lk = {l[0]: l for l in s["links"]}
    links = [ends[l] for l in reg]
    nodes = sorted({n for l in links for n in l[1:]})
    # (a two-class cell-transmission link is at least one cell long)
    ln = [max(lk[l][4] * 1600.0, lk[l][5] * 1600.0 / 3600.0 * s["unit_time"] if lk[l][3] == "CTM" else 0.0) for l in reg]
    tts = np.array(ln)[:, None] * 3600.0 / 1600.0 / o.get_car_link_speed(np.arange(M, dtype=float)) / s["unit_time"]
    tt = {l: tts[i].tolist() for i, l in enumerate(reg)}
    k = vot / 3600.0 * s["unit_time"]
    cost = {l: [k * x + tolls.get(l, 0.0) for x in tt[l]] for l in reg}
    rng = random.Random(s["seed"])
    table = {tuple(p[0]) for p in s["paths"]}
    on, dn = dict(map(tuple, s["origins"])), dict(map(tuple, s["dests"]))
    for dest in sorted({dn[r[1]] for r in s["demand"]}):
        D = solve(links, cost, tt, M, dest, nodes)
        for src in sorted({on[r[0]] for r in s["demand"] if dn[r[1]] == dest}):
            for t in rng.sample(range(M - s["assign_frq"] + 1), min(4, M - s["assign_frq"] + 1)):
                r = o.get_lowest_cost_path(t, src, dest)
                tag = "cheapest path from %d at %d to %d" % (src, t, dest)
                ns, ls = r[2].tolist(), r[3][:-1].tolist()
                ok = ctx.expect(ns[0] == src and ns[-1] == dest and len(set(ns)) == len(ns), tag + ": %s" % ns)
                for i, l in enumerate(ls):
                    ok = ok and ctx.expect(ends.get(l, (0, 0, 0))[1:] == (ns[i], ns[i + 1]), tag + ": link %d out of place in %s" % (l, ns))
                ctx.expect(r[0, 0] == (tuple(ns) in table), tag + ": %s, reported as %s in the path table" % (ns, r[0, 0]))
                if ok:
                    c, x = 0.0, t
                    for l in ls:
                        c += cost[l][x]
                        x = min(M - 1, x + up(tt[l][x]))
                    ctx.expect(close(c, D[src][t], 1e-6), lambda: tag + ": %s costs %.9g, the optimum is %.9g" % (ns, c, D[src][t]))
                    ctx.expect(abs(r[1, 0] - D[src][t]) <= 1 + 1e-6, lambda: tag + ": reported cost %d, the optimum is %.9g" % (r[1, 0], D[src][t]))
                ctx.count("loaded_paths")


def run(ctx, case):
    if "scens" not in case:
        return graphs(ctx, case)
    for i, s in enumerate(case["scens"]):
        if s["total_interval"] > 0:
            s["total_interval"] = max(s["total_interval"], s["assign_frq"] * s["max_interval"])
        loaded(ctx, s, ctx.write(s, "n%d" % i))
