"""Multimodal path sets: which modes reach whom, which links the paths cover, new paths for the others, lowest-cost paths, saved tables."""
import importlib.util
import math
import os
import random

import numpy as np

RULE = ("one evaluation = 2 random multimodal networks; connectivity, coverage and saved tables are recomputed from the input, the paths "
        "made to cover links are read back and walked, every lowest-cost path is compared with an independent search over the link times; "
        "distinct = different (network size, lines, lots, explicit or scheduled buses, scalar, demand split)")
ASSUMPTIONS = ["link times and path costs themselves are judged by C27", "where several paths of a mode tie, each of them is accepted"]
TIMEOUT = 120
HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


VAR = [dict(), dict(explicit_bus=0, pload=20), dict(routes=3, npaths=1), dict(flow_scalar=1, pload=20, bus_levels=[1, 2], npaths=1),
       dict(tight=True, load=60, npaths=1, nD=3), dict(routes=3, load=30, max_interval=4, nO=3, nD=3, npaths=1), dict(explicit_bus=0, tight=True, load=60),
       dict(flow_scalar=3, bus_levels=[1, 2], routes=3, tight=True, load=30, inner=6, npaths=1), dict(load=30, lot_time=[30.0, 120.0], nO=3, nD=3)]
MODES = ("driving", "transit", "pnr")


def gen(tier, seed):
    n = 360 if tier == "quick" else 3000
    ss = mod("C23").scenarios(seed, n, "C28", VAR)
    for i, s in enumerate(ss):
        rng = random.Random("C28t/%d/%d" % (seed, i))
        s["mmdue"] = dict(vot=rng.choice([10, 20, 36]), early_penalty=rng.choice([0, 10, 12]), late_penalty=rng.choice([15, 40]),
                          target_time=rng.choice([1, 5, 15, 40]), parking_lot_to_destination_walking_time=rng.choice([0, 60, 62]),
                          bus_fare=rng.choice([0, 2, 2.5]), pnr_inconvenience=rng.choice([0, 1.25]), bus_inconvenience=rng.choice([0, 0.75]),
                          alpha1_driving=rng.choice([0.5, 4.0]), alpha1_transit=rng.choice([0, 1.0]), alpha1_pnr=rng.choice([0, 0.8]), beta1=rng.choice([0.5, 1.0]))
        if rng.random() < 0.6:
            t = {l[0]: round(rng.uniform(0, 3), 2) for l in s["links"] if rng.random() < 0.5}
            if t:
                s["tolls"] = {str(k): v for k, v in t.items()}
                s.setdefault("files", {})["MNM_input_link_toll"] = "#link toll\n" + "".join("%d %s %s\n" % (k, v, round(v * 1.7, 3)) for k, v in t.items())
                s["conf"] = dict(s.get("conf", {}), num_of_tolled_link=len(t))
    return [dict(scens=ss[i:i + 2]) for i in range(0, len(ss), 2)]


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


class Net:
    def __init__(self, s):
        self.s, self.m = s, s["mm"]
        self.L = {l[0]: l for l in s["links"]}
        self.TL = {l["id"]: l for l in self.m["tl"]}
        self.onode = {r[0]: r[1] for r in s["origins"]}
        self.dnode = {r[0]: r[1] for r in s["dests"]}
        self.pairs = sorted({(self.onode[r[0]], self.dnode[r[1]]) for r in self.m["passengers"]})
        self.d = {l: (x[1], x[2]) for l, x in self.L.items()}
        self.t = {l: (x["a"], x["b"]) for l, x in self.TL.items()}
        self.up = {}
        nodes = {n for e in (self.d, self.t) for x in e.values() for n in x}
        for n in nodes:
            self.up[n] = (reach(self.d, n), reach(self.t, n))

    def mode(self, o, d, k):
        """Whether the mode leads from o to d."""
        none = (set(), set())
        if k == 0:
            return o in self.up.get(d, none)[0]
        if k == 1:
            return o in self.up.get(d, none)[1]
        return any(q["node"] != d and q["node"] in self.up.get(d, none)[1] and o in self.up.get(q["node"], none)[0] for q in self.m["lots"])


def reach(edges, dst):
    back = {}
    for a, b in edges.values():
        back.setdefault(b, []).append(a)
    seen, todo = {dst}, [dst]
    while todo:
        for a in back.get(todo.pop(), []):
            if a not in seen:
                seen.add(a)
                todo.append(a)
    return seen


def one(ctx, s, d):
    rng = random.Random("C28/%d" % s["seed"])
    ctx.mon.config(1)
    ctx.mp.set_random_state(s["seed"] % (2 ** 31))
    ctx.sig(mod("C23").shape(s))
    N = Net(s)
    m = s["mm"]
    o = ctx.mp.Mmdta.from_files(d)
    on = dict(driving=True, transit=bool(m["bt_paths"]), pnr=bool(m["pnr_paths"]))
    connectivity(ctx, o, N, on)
    demand_file(ctx, o, N, on, d)
    lowest(ctx, rng, o, N, on)
    tables(ctx, o, N, on, d)
    cover(ctx, rng, N, d)


def connectivity(ctx, o, N, on):
    r = np.asarray(o.get_od_mode_connectivity())
    got = sorted(tuple(int(x) for x in row) for row in r)
    want = sorted((a, b) + tuple(int(on[x] and N.mode(a, b, k)) for k, x in enumerate(MODES)) for a, b in N.pairs)
    ctx.expect(got == want, lambda: "modes per pair %s, the network says %s" % (got, want))
    ctx.count("pairs", len(want))


def rows(path):
    return [l.split() for l in open(path) if l.strip() and not l.startswith("#")]


def demand_file(ctx, o, N, on, d):
    e = os.path.join(d, "init")
    os.makedirs(e)
    o.generate_init_mode_demand_file(e)
    mi = N.s["max_interval"]
    oid = {b: a for a, b in N.onode.items()}
    did = {b: a for a, b in N.dnode.items()}
    for k, (x, f, n) in enumerate((("driving", "driving_demand", 2 * mi), ("transit", "bustransit_demand", mi), ("pnr", "pnr_demand", mi))):
        p = os.path.join(e, f)
        if not on[x]:
            continue
        got = sorted((int(r[0]), int(r[1])) + tuple(float(v) for v in r[2:]) for r in rows(p))
        want = sorted((oid[a], did[b]) + (1.0,) * n for a, b in N.pairs if N.mode(a, b, k))
        ctx.expect(got == want, lambda: "%s: %s, expected a one in each of %d columns for %s" % (f, got, n, [w[:2] for w in want]))


# ---- lowest-cost paths
def lowest(ctx, rng, o, N, on):
    s, m = N.s, N.m
    u = float(s["unit_time"])
    P = s["mmdue"]
    up = mod("C12").up
    dl, bl, wl = list(N.L), [i for i in N.TL if N.TL[i]["kind"] == "bus"], [i for i in N.TL if N.TL[i]["kind"] != "bus"]
    o.register_links_driving(np.array(dl))
    if bl:
        o.register_links_bus(np.array(bl))
    if wl:
        o.register_links_walking(np.array(wl))
    o.install_cc()
    o.install_cc_tree()
    o.run_whole(False)
    T = o.get_cur_loading_interval()
    o.build_link_cost_map(rng.random() < 0.3)
    o.update_tdsp_tree()
    S = np.arange(T, dtype=float)
    toll = {int(a): b for a, b in s.get("tolls", {}).items()}
    vot = P["vot"] / 3600.0 * u
    td = o.get_car_link_tt(S, True) / u
    if not np.isfinite(td).all():
        ctx.count("skipped_capped_times")
        return
    tt = {l: td[i] for i, l in enumerate(dl)}
    tb = o.get_bus_link_tt(S, False, not m["explicit"]) / u if bl else None
    tw = o.get_passenger_walking_link_tt(S) / u if wl else None
    for i, l in enumerate(bl):
        tt[l] = tb[i]
    for i, l in enumerate(wl):
        tt[l] = tw[i]
    cost = {l: tt[l] * vot + toll.get(l, 0.0) for l in tt}
    step = {}
    trees = {}

    def ticks(l):
        if l not in step:
            step[l] = [up(float(x)) for x in tt[l]]
        return step[l]

    def tree(edges, dst):
        """dist[node][t], by time from the last interval, where the clock stands still, to the first."""
        key = (id(edges), dst)
        if key in trees:
            return trees[key]
        out = {}
        nodes = {n for e in edges.values() for n in e}
        dist = {n: np.full(T, math.inf) for n in nodes | {dst}}
        dist[dst][:] = 0.0
        for _ in range(len(nodes)):
            ch = False
            for l, (a, b) in edges.items():
                c = cost[l][T - 1] + dist[b][T - 1]
                if c < dist[a][T - 1] - 1e-12:
                    dist[a][T - 1] = c
                    ch = True
            if not ch:
                break
        for t in range(T - 2, -1, -1):
            for l, (a, b) in edges.items():
                if a == dst:
                    continue
                c = cost[l][t] + dist[b][min(t + ticks(l)[t], T - 1)]
                if c < dist[a][t]:
                    dist[a][t] = c
        trees[key] = dist
        return dist

    def walk(links, t):
        """(cost, real time, tick) of a sequence of links."""
        c = x = 0.0
        t = min(t, T - 1)
        for l in links:
            c += cost[l][t]
            x += tt[l][t]
            t = min(t + ticks(l)[t], T - 1)
        return c, x, t

    def optimal(edges, src, dst, t0, limit=40):
        """All sequences of links that tie for the lowest cost; None when there are too many or one visits a node twice."""
        dist = tree(edges, dst)
        if not math.isfinite(dist[src][min(t0, T - 1)]):
            return []
        out = {}
        for l, (a, b) in edges.items():
            out.setdefault(a, []).append(l)
        res = []
        todo = [(src, min(t0, T - 1), [], 0)]
        while todo:
            n, t, ls, k = todo.pop()
            if n == dst:
                res.append(ls)
                if len(res) > limit:
                    return None
                continue
            if k > len(out) + 1 or len(todo) > 500:
                return None
            for l in out.get(n, []):
                b = edges[l][1]
                t2 = min(t + ticks(l)[t], T - 1)
                if abs(cost[l][t] + dist[b][t2] - dist[n][t]) <= 1e-9 + 1e-7 * abs(dist[n][t]):
                    todo.append((b, t2, ls + [l], k + 1))
        for ls in res:
            ns = [edges[l][0] for l in ls] + [dst]
            if len(set(ns)) < len(ns):
                return None
        return res

    alpha = dict(driving=P["alpha1_driving"], transit=P["alpha1_transit"], pnr=P["alpha1_pnr"])

    def price(mode, x, st):
        """Cost to the traveller, by the interface C27 judges."""
        q = np.array([float(st)])
        if mode == "driving":
            c = o.get_passenger_path_cost_driving(np.array(x[0]), q)[2, 0]
        elif mode == "transit":
            c = o.get_passenger_path_cost_bus(np.array(x[1]), q)[1, 0]
        else:
            c = o.get_passenger_path_cost_pnr(np.array(x[0]), np.array(x[1]), q)[1, 0]
        # nobody uses any mode before the first assignment
        return c + (alpha[mode] + math.log(1e-9)) / P["beta1"]

    def candidates(mode, a, b, st):
        """A list of groups: one path out of every group is a candidate; None when it is not known."""
        if mode == "driving":
            r = optimal(N.d, a, b, st)
            return None if r is None else [[(x, []) for x in r]]
        if mode == "transit":
            r = optimal(N.t, a, b, st)
            return None if r is None else [[([], x) for x in r]]
        groups = []
        for q in m["lots"]:
            n = q["node"]
            if n == b or n not in N.up[b][1]:
                continue
            if a not in N.up[n][0]:
                continue
            r = optimal(N.d, a, n, st)
            if r is None:
                return None
            g = []
            for x in r:
                y = walk(x, st)[1]
                if abs(y - round(y)) < 1e-6 and y != round(y):
                    return None
                # the search for a space: any number of intervals up to the longest
                lo = st + math.ceil(y)
                opts = {}
                for w in range(0, int(10 * q["time"] / u) + 2):
                    z = optimal(N.t, n, b, lo + w)
                    if z is None:
                        return None
                    for v in z:
                        opts[tuple(v)] = v
                g += [(x, v) for v in opts.values()]
                if len(g) > 60:
                    return None
            groups.append(g)
        return groups

    sets = dict(driving={(p[0][0], p[0][-1], tuple(by_nodes(N, p[0]))) for p in s["paths"]},
                transit={(p["o"], p["d"], tuple(p["links"])) for p in m["bt_paths"]},
                pnr={(p["o"], p["d"], tuple(p["dlinks"]), tuple(p["links"])) for p in m["pnr_paths"]})
    have = {k: {x[:2] for x in v} for k, v in sets.items()}
    AF = s["max_interval"] * s["assign_frq"]
    for a, b in N.pairs:
        modes = [x for k, x in enumerate(MODES) if on[x] and N.mode(a, b, k)]
        for st in sorted({0, min(AF, T) - 1} | {rng.randrange(min(AF, T)) for _ in range(3)}):
            r = np.asarray(o.get_lowest_cost_path(st, a, b))
            ctx.count("paths")
            mode = MODES[int(r[1, 0])] if int(r[1, 0]) in (0, 1, 2) else None
            if not ctx.expect(mode in modes, lambda: "lowest-cost path %d to %d at %d: mode %s, available %s" % (a, b, st, r[1, 0], modes)):
                continue
            nodes = [int(x) for x in r[2] if x >= 0]
            links = [int(x) for x in r[3] if x >= 0]
            x = (by_nodes(N, nodes), links)
            end = b if mode == "driving" else nodes[-1] if nodes else None
            ok = True
            if mode != "transit":
                ok = bool(nodes) and x[0] is not None and nodes[0] == a and len(set(nodes)) == len(nodes) and (mode == "pnr" or nodes[-1] == b)
            if ok and mode != "driving":
                ns = [N.t[l][0] for l in links] + [N.t[links[-1]][1]] if links and all(l in N.t for l in links) else []
                ok = bool(ns) and all(N.t[l][1] == N.t[k][0] for l, k in zip(links, links[1:])) and ns[-1] == b and len(set(ns)) == len(ns) \
                    and (ns[0] == a if mode == "transit" else ns[0] == end and any(q["node"] == end for q in m["lots"]))
            if not ctx.expect(ok, lambda: "lowest-cost path %d to %d at %d by %s: nodes %s, links %s are no path" % (a, b, st, mode, nodes, links)):
                continue
            ctx.count("paths_by_" + mode)
            if x[0] is None:
                x = ([], links)
            known = (a, b, tuple(x[0])) if mode == "driving" else (a, b, tuple(links)) if mode == "transit" else (a, b, tuple(x[0]), tuple(links))
            if not parallel(N, nodes):
                ctx.expect(bool(r[0, 0]) == (known in sets[mode]), lambda: "path %s of %s is reported as %s" % (known, mode, "known" if r[0, 0] else "new"))
            c = candidates(mode, a, b, st)
            mine = None
            if c is not None:
                w = [y for g in c for y in g]
                ctx.expect(any(same(N, y, x) for y in w), lambda: "lowest-cost path %d to %d at %d by %s: links %s %s; the lowest-cost ones are %s" % (a, b, st, mode, x[0], x[1], w[:4]))
                mine = price(mode, x, st)
                ctx.count("paths_judged")
                if mode == "pnr":
                    # the best lot: the dearest of the ties of every lot is an upper bound
                    best = [max(price(mode, y, st) for y in g) for g in c if g]
                    ctx.expect(mine <= min(best) + 1e-6 * (1 + abs(mine)), lambda: "park-and-ride %d to %d at %d costs %.9g, another lot %.9g" % (a, b, st, mine, min(best)))
            for k in modes:
                if k == mode or mine is None:
                    continue
                c = candidates(k, a, b, st)
                if not c or not any(c):
                    continue
                other = min(max(price(k, y, st) for y in g) for g in c if g)
                ctx.expect(mine <= other + 1e-6 * (1 + abs(mine)), lambda: "lowest-cost path %d to %d at %d goes by %s for %.9g, %s costs %.9g" % (a, b, st, mode, mine, k, other))
                ctx.count("modes_compared")


def by_nodes(N, nodes):
    out = []
    for a, b in zip(nodes, nodes[1:]):
        c = [l for l, e in N.d.items() if e == (a, b)]
        if not c:
            return None
        out.append(c[0])
    return out


def parallel(N, nodes):
    e = list(N.d.values())
    return any(e.count(x) > 1 for x in zip(nodes, nodes[1:]))


def same(N, x, y):
    return [N.d[l] for l in x[0]] == [N.d[l] for l in y[0]] and list(x[1]) == list(y[1])


# ---- saved tables
def tables(ctx, o, N, on, d):
    e = os.path.join(d, "saved")
    os.makedirs(e)
    o.save_passenger_path_table(e)
    s, m = N.s, N.m
    got = []
    for l in open(os.path.join(e, "passenger_path_table")):
        if l.startswith("#") or not l.strip():
            continue
        a, b, c = cut(l)
        got.append(tuple(a) + (tuple(b), tuple(c)))
    lot = {q["node"]: q["id"] for q in m["lots"]}
    want = []
    if on["driving"]:
        want += [(str(p[0][0]), str(p[0][-1]), "driving", "-1", str(lot.get(p[0][-1], -1)), tuple(p[0]), ()) for p in s["paths"] if (p[0][0], p[0][-1]) in N.pairs]
    want += [(str(p["o"]), str(p["d"]), "bus", "-1", "-1", (), tuple(p["links"])) for p in m["bt_paths"] if (p["o"], p["d"]) in N.pairs]
    want += [(str(p["o"]), str(p["d"]), "pnr", str(p["mid"]), str(p["lot"]), tuple(p["nodes"]), tuple(p["links"])) for p in m["pnr_paths"] if (p["o"], p["d"]) in N.pairs]
    ctx.expect(sorted(got) == sorted(want), lambda: "saved traveller paths: extra %s, missing %s" % (list(set(got) - set(want))[:3], list(set(want) - set(got))[:3]))
    ctx.count("saved_paths", len(got))
    n = s["max_interval"]
    b = [r for r in open(os.path.join(e, "passenger_path_table_buffer")) if r.strip()]
    ctx.expect(len(b) == len(got) and all(len(r.split()) == n and all(float(x) == 0 for x in r.split()) for r in b),
               lambda: "%d rows of flows for %d saved paths, the first %r; nobody is assigned yet" % (len(b), len(got), b[:1]))


def cut(l):
    """The words before the first bracket and the numbers inside the two pairs of brackets."""
    h, r = l.split("<", 1)
    x, r = r.split(">", 1)
    y = r.split("<", 1)[1].split(">", 1)[0]

    def ints(z):
        return [] if z == "---" else [int(v) for v in z.split()]
    return h.split(), ints(x), ints(y)


# ---- links that no path uses
def cover(ctx, rng, N, d):
    s, m = N.s, N.m
    o = ctx.mp.Mmdta.from_files(d)
    nd, nb, np_ = len(s["paths"]), len(m["bt_paths"]), len(m["pnr_paths"])
    # the paths of a kind are registered together or not at all
    kd, kb, kp = [x if rng.random() < 0.8 else [] for x in (list(range(nd)), list(range(nd, nd + nb)), list(range(nd + nb, nd + nb + np_)))]
    if kd:
        o.register_paths_driving(np.array(kd))
    if kb:
        o.register_paths_bustransit(np.array(kb))
    if kp:
        o.register_paths_pnr(np.array(kp))
    dl = some(rng, list(N.L))
    bl = some(rng, [i for i in N.TL if N.TL[i]["kind"] == "bus"])
    wl = some(rng, [i for i in N.TL if N.TL[i]["kind"] != "bus"])
    o.register_links_driving(np.array(dl))
    if bl:
        o.register_links_bus(np.array(bl))
    if wl:
        o.register_links_walking(np.array(wl))
    D = [(p[0][0], p[0][-1], tuple(p[0])) for p in s["paths"]]
    B = [(p["o"], p["d"], tuple(p["links"])) for p in m["bt_paths"]]
    P = [(p["o"], p["d"], p["lot"], p["mid"], tuple(p["nodes"]), tuple(p["links"])) for p in m["pnr_paths"]]
    ud = {e for i in kd for e in zip(D[i][2], D[i][2][1:])}
    ut = {l for i in kb for l in B[i - nd][2]} | {l for i in kp for l in P[i - nd - nb][5]}
    hd = [N.d[l] in ud for l in dl]
    hb, hw = [l in ut for l in bl], [l in ut for l in wl]
    multi = any(list(N.d.values()).count(N.d[l]) > 1 for l in dl)
    got = [bool(x) for x in o.are_registered_links_in_registered_paths_driving()]
    ctx.expect(multi or got == hd, lambda: "driving links %s on registered paths %s: %s, expected %s" % (dl, kd, got, hd))
    got = [bool(x) for x in o.are_registered_links_in_registered_paths_bus()]
    ctx.expect(got == hb, lambda: "bus links %s on registered paths %s: %s, expected %s" % (bl, kb + kp, got, hb))
    got = [bool(x) for x in o.are_registered_links_in_registered_paths_walking()]
    ctx.expect(got == hw, lambda: "walking links %s on registered paths %s: %s, expected %s" % (wl, kb + kp, got, hw))
    if multi:
        return
    nodes = {(N.onode[r[0]], N.dnode[r[1]]) for r in s["demand"]}
    r = [int(x) for x in o.generate_paths_to_cover_registered_links_driving()]
    can = [h or any(x in N.up[N.d[l][0]][0] and N.d[l][1] in N.up[y][0] for x, y in nodes) for l, h in zip(dl, hd)]
    ctx.expect(r == [0 if all(hd) else 1] + [int(x) for x in can], lambda: "covering driving links %s: %s, before %s, possible %s" % (dl, r, hd, can))
    if not all(hd):
        t = [tuple(int(x) for x in w) for w in rows(os.path.join(d, "driving_path_table"))]
        new = minus([(x[0], x[-1], x) for x in t], D)
        ctx.expect(new is not None, lambda: "paths are gone from the driving table after covering %s" % dl)
        for a, b, x in new or []:
            ctx.expect((a, b) in nodes and all(e in N.d.values() for e in zip(x, x[1:])), lambda: "new driving path %s is no path of a pair with demand" % (x,))
        e = {e for _, _, x in new or [] for e in zip(x, x[1:])}
        bad = [l for l, h, c in zip(dl, hd, can) if c and not h and N.d[l] not in e]
        ctx.expect(not bad, lambda: "driving links %s are on no path of the new table" % bad)
        ctx.count("new_driving", len(new or []))
        buffers(ctx, os.path.join(d, "driving_path_table_buffer"), t, [(tuple(p[0]), p[1]) for p in s["paths"]], 2 * s["max_interval"])
    if not (m["bt_paths"] and m["pnr_paths"]):
        return
    nb_ = {(N.onode[r[0]], N.dnode[r[1]]) for r in m["bt_demand"]}
    np2 = {(N.onode[r[0]], N.dnode[r[1]]) for r in m["pnr_demand"]}
    r = [int(x) for x in o.generate_paths_to_cover_registered_links_bus_walking()]
    lots = [q["node"] for q in m["lots"]]

    def possible(l):
        u, v = N.t[l]
        return any(x in N.up[u][1] and v in N.up.get(y, (0, ()))[1] for x, y in nb_) or any(
            x in N.up[q][0] and q != y and q in N.up.get(y, (0, ()))[1] and q in N.up[u][1] and v in N.up[y][1] for x, y in np2 for q in lots if q in N.up)
    can = [int(h or possible(l)) for l, h in zip(bl + wl, hb + hw)]
    ctx.expect(r == [0 if all(hb + hw) else 1] + can, lambda: "covering transit links %s: %s, before %s, possible %s" % (bl + wl, r, hb + hw, can))
    if all(hb + hw):
        return
    t = [tuple(int(x) for x in w) for w in rows(os.path.join(d, "bustransit_path_table"))]
    new = minus([(x[0], x[1], x[2:]) for x in t], B)
    ctx.expect(new is not None, lambda: "paths are gone from the transit table after covering %s" % (bl + wl))
    e = set()
    for a, b, x in new or []:
        ctx.expect((a, b) in nb_ and x and all(l in N.t for l in x) and N.t[x[0]][0] == a and N.t[x[-1]][1] == b and all(N.t[l][1] == N.t[k][0] for l, k in zip(x, x[1:])),
                   lambda: "new transit path %s from %d to %d is no path of a pair with demand" % (x, a, b))
        e |= set(x)
    ctx.count("new_transit", len(new or []))
    buffers(ctx, os.path.join(d, "bustransit_path_table_buffer"), t, [((p["o"], p["d"]) + tuple(p["links"]), p["buf"]) for p in m["bt_paths"]], s["max_interval"])
    t = [tuple(int(x) for x in w) for w in rows(os.path.join(d, "pnr_path_table"))]
    new = minus([x[:4] + split(N, x) for x in t], P)
    ctx.expect(new is not None, lambda: "paths are gone from the park-and-ride table after covering %s" % (bl + wl))
    lot = {q["id"]: q["node"] for q in m["lots"]}
    for a, b, q, n, x, y in new or []:
        ctx.expect((a, b) in np2 and lot.get(q) == n and x and y and x[0] == a and x[-1] == n and all(k in N.d.values() for k in zip(x, x[1:]))
                   and N.t[y[0]][0] == n and N.t[y[-1]][1] == b and all(N.t[l][1] == N.t[k][0] for l, k in zip(y, y[1:])),
                   lambda: "new park-and-ride path %s %s through lot %d from %d to %d is no path of a pair with demand" % (x, y, q, a, b))
        e |= set(y)
    ctx.count("new_pnr", len(new or []))
    buffers(ctx, os.path.join(d, "pnr_path_table_buffer"), t, [((p["o"], p["d"], p["lot"], p["mid"]) + tuple(p["nodes"]) + tuple(p["links"]), p["buf"]) for p in m["pnr_paths"]], s["max_interval"])
    bad = [l for l, h, c in zip(bl + wl, hb + hw, can) if c and not h and l not in e]
    ctx.expect(not bad, lambda: "transit links %s are on no path of the new tables" % bad)


def split(N, x):
    """Driving nodes up to the lot's node, then transit links."""
    k = x.index(x[3], 4) + 1
    return (tuple(x[4:k]), tuple(x[k:]))


def minus(a, b):
    """a without b as multisets; None when b is not within a."""
    r = list(a)
    for x in b:
        if x not in r:
            return None
        r.remove(x)
    return r


def buffers(ctx, path, table, old, n):
    """The flows beside a table: those of the paths that were there, zeros for the new ones."""
    r = [[float(x) for x in l.split()] for l in open(path) if l.strip()]
    left = list(zip(table, r))
    lost = []
    for t, w in old:
        k = [i for i, (y, x) in enumerate(left) if y == t and len(x) == len(w) and all(abs(p - q) <= 1.1e-6 + 1e-6 * abs(q) for p, q in zip(x, w))]
        if k:
            left.pop(k[0])
        else:
            lost.append((t, w))
    ctx.expect(len(r) == len(table) and not lost and all(x == [0.0] * n for _, x in left),
               lambda: "flows beside the new table of %d paths (%d rows): lost %s, new ones with flows %s" % (len(table), len(r), lost[:2], [x for x in left if x[1] != [0.0] * n][:2]))


def some(rng, x):
    x = list(x)
    rng.shuffle(x)
    return x[:rng.randint(1, len(x))] if x else []
