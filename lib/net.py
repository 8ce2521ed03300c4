"""Scenarios: random networks and demands, written out in macposts' input format.

A scenario is a plain JSON-able dict, so a replay file holds all of it.
"""
import os
import random

MILE = 1600.0


# --------------------------------------------------------------------------
# generation
def simple_paths(links, src, dst, limit=6, maxlen=14, rng=None):
    out = {}
    for lk in links:
        out.setdefault(lk[1], []).append((lk[0], lk[2]))
    res = []
    budget = [4000]

    def rec(n, nodes, lids):
        if len(res) >= 4 * limit or budget[0] <= 0:
            return
        budget[0] -= 1
        if n == dst:
            res.append((list(nodes), list(lids)))
            return
        if len(nodes) > maxlen:
            return
        nxt = list(out.get(n, []))
        if rng:
            rng.shuffle(nxt)
        for lid, m in nxt:
            if m not in nodes:
                nodes.append(m)
                lids.append(lid)
                rec(m, nodes, lids)
                nodes.pop()
                lids.pop()

    rec(src, [src], [])
    res.sort(key=lambda p: len(p[0]))
    return res[:limit]


def gen(rng, kind="dta", **o):
    """One random scenario. *o* overrides choices."""
    if isinstance(rng, int):
        rng = random.Random(rng)
    g = o.get
    mc = kind == "mcdta"
    unit = g("unit_time", rng.choice([5, 5, 5, 10, 4]))
    per_min = 60 // unit
    if mc:
        unit = g("unit_time", 5)
        per_min = 60 // unit
        nmin = g("nmin", rng.choice([1, 2, 3, 5, 5]))
        assign = nmin * per_min
    else:
        assign = g("assign_frq", rng.choice([6, 10, 12, 24]))
    maxint = g("max_interval", rng.choice([1, 2, 3, 4]))
    scalar = g("flow_scalar", rng.choice([1, 2, 3, 5] if not mc else [1, 1, 2, 3]))
    ninner = g("inner", rng.randint(2, 7))
    nO = g("nO", rng.randint(1, 3))
    nD = g("nD", rng.randint(1, 3))
    # ids are sparse and unordered on purpose
    ids = rng.sample(range(1, 400), ninner + nO + nD)
    inner, on, dn = ids[:ninner], ids[ninner:ninner + nO], ids[ninner + nO:]
    jtypes = g("junctions", ["FWJ"])
    conv = g("conv", rng.choice([1.0, 1.5, 1.75, 2.0, 3.0]))
    nodes = []
    for n in inner:
        nodes.append([n, rng.choice(jtypes), conv])
    for n in on:
        nodes.append([n, "DMOND", conv])
    for n in dn:
        nodes.append([n, "DMDND", conv])
    rng.shuffle(nodes)
    pairs = []
    # links with limited storage on a cycle can lock up for good (as in reality), so networks
    # that must drain have no cycles, and cyclic ones a finite horizon
    ltypes = g("ltypes", ["PQ", "CTM", "LQ"])
    horizon = g("total_interval", -1)
    dag = False
    if horizon <= 0 and set(ltypes) != {"PQ"} and ninner > 1:
        if g("cyclic", rng.random() < 0.35):
            horizon = max(maxint * assign + 40, g("horizon", 260))
        else:
            dag = True
    # a backbone cycle keeps everything reachable, then chords
    order = inner[:]
    rng.shuffle(order)
    if ninner > 1:
        for a, b in zip(order, order[1:] + ([] if dag else order[:1])):
            pairs.append((a, b))
    extra = rng.randint(0, ninner + 2)
    for _ in range(extra):
        if ninner < 2:
            break
        a, b = rng.sample(inner, 2)
        if dag and order.index(a) > order.index(b):
            a, b = b, a
        if (a, b) not in pairs:
            pairs.append((a, b))
    if g("parallel"):
        # several links from one node to another (paths given by nodes would be ambiguous)
        pairs += rng.sample(pairs, rng.randint(0, len(pairs))) if pairs else []
    conn_o, conn_d = [], []
    early = order[:(ninner + 1) // 2] if dag else inner
    late = order[ninner // 2:] if dag else inner
    for n in on:
        for m in rng.sample(early, min(len(early), rng.choice([1, 1, 1, 2]))):
            conn_o.append((n, m))
    for n in dn:
        for m in rng.sample(late, min(len(late), rng.choice([1, 1, 1, 2]))):
            conn_d.append((m, n))
    lids = rng.sample(range(1, 900), len(pairs) + len(conn_o) + len(conn_d))
    links = []
    tight = g("tight", rng.random() < 0.5)

    def phys(connector, typ):
        if connector:
            length = rng.choice([0.05, 0.1, 0.25, 1.0])
            return [length, rng.choice([20, 40, 9999] if not mc else [20, 40]),
                    rng.choice([2200, 20000, 99999]), rng.choice([200, 9999, 99999]),
                    rng.choice([1, 2, 4])]
        length = round(rng.choice([0.06, 0.1, 0.2, 0.35, 0.55, 0.8, 1.1])
                       * rng.uniform(0.8, 1.2), 3)
        ffs = rng.choice([15, 25, 30, 35, 45, 50, 65])
        lanes = rng.randint(1, 3)
        # at least one vehicle per interval must fit (the model's own condition)
        need = 3600.0 / unit / scalar / lanes * 1.05
        lo = max(need, 500)
        cap = round(rng.uniform(lo, lo * 1.6) if tight else rng.uniform(lo, lo + 1500), 1)
        cap = min(cap, 3400) if cap >= need else cap
        rhoj = round(max(2.3 * cap / ffs, rng.choice([150, 180, 200, 240])), 1)
        if typ in ("CTM",):
            rhoj = min(rhoj, 300.0)
            if cap > rhoj * ffs / 2.05:
                ffs = 65
        return [length, ffs, cap, rhoj, lanes]

    def full(lid, a, b, typ, connector):
        p = phys(connector, typ)
        row = [lid, a, b, typ] + p
        if mc:
            ffs, cap, rhoj = p[1], p[2], p[3]
            k = rng.choice([1.0, 0.9, 0.8, 0.6])
            cap_t = round(cap * rng.choice([1.0, 0.9, 0.7]), 1)
            rhoj_t = round(rhoj * rng.choice([1.0, 0.8, 0.6]), 1)
            # jam density above critical density, as the link models require
            rhoj_t = max(rhoj_t, round(1.3 * cap_t / (ffs * k), 1))
            row += [round(ffs * k, 2), cap_t, rhoj_t, conv]
        return row

    it = iter(lids)
    for a, b in pairs:
        links.append(full(next(it), a, b, rng.choice(ltypes), False))
    for a, b in conn_o + conn_d:
        links.append(full(next(it), a, b, g("conn_type", "PQ"), True))
    rng.shuffle(links)

    oid = rng.sample(range(1, 60), nO)
    did = rng.sample(range(1, 60), nD)
    origins = [[i, n] for i, n in zip(oid, on)]
    dests = [[i, n] for i, n in zip(did, dn)]
    load = g("load", rng.choice([3, 8, 15, 30]))
    frac = g("frac", rng.random() < 0.6)

    def vec():
        style = rng.random()
        v = []
        for _ in range(maxint):
            x = rng.uniform(0, load)
            if style < 0.15 and rng.random() < 0.6:
                x = 0.0
            v.append(round(x, 3) if frac else float(int(x)))
        return v

    demand = []
    for o_, _ in origins:
        for d_, _ in dests:
            if rng.random() < 0.12 and (demand or len(origins) * len(dests) > 1):
                if not (o_ == origins[-1][0] and d_ == dests[-1][0] and not demand):
                    continue
            r = [o_, d_, vec()]
            if mc:
                r.append(vec() if rng.random() < 0.85 else [0.0] * maxint)
            demand.append(r)
    routing = g("routing", rng.choice(
        ["Adaptive", "Fixed", "Hybrid"] if not mc
        else ["Adaptive", "Fixed", "Hybrid", "Biclass_Hybrid"]))
    s = dict(kind=kind, unit_time=unit, assign_frq=assign, max_interval=maxint,
             total_interval=horizon, flow_scalar=scalar,
             nodes=nodes, links=links, origins=origins, dests=dests, demand=demand,
             routing=routing, route_frq=g("route_frq", rng.choice([1, assign, 2 * assign, 180])),
             fixed_route_frq=assign,
             init_demand_split=g("init_demand_split", 1 if mc else rng.choice([0, 1])),
             vot=g("vot", None), seed=rng.randint(1, 2 ** 30))
    if routing in ("Hybrid",):
        s["adaptive_ratio"] = g("adaptive_ratio", rng.choice([0, 0.3, 0.5, 0.8, 1]))
    if routing in ("Biclass_Hybrid",):
        s["adaptive_ratio_car"] = g("adaptive_ratio_car", rng.choice([0, 0.4, 1]))
        s["adaptive_ratio_truck"] = g("adaptive_ratio_truck", rng.choice([0, 0.6, 1]))
    # demands are written per (origin, dest); drop pairs no path serves
    onode = dict((i, n) for i, n in origins)
    dnode = dict((i, n) for i, n in dests)
    paths = []
    keep = []
    for d in demand:
        ps = simple_paths(links, onode[d[0]], dnode[d[1]], g("npaths", 4), rng=rng)
        if not ps:
            continue
        keep.append(d)
        cols = maxint * (2 if routing.startswith("Biclass") else 1)
        bufs = [[0.0] * cols for _ in ps]
        for c in range(cols):
            w = [rng.choice([0, 1, 1, 2, 5]) * rng.random() for _ in ps]
            if sum(w) <= 0:
                w[rng.randrange(len(ps))] = 1.0
            sc = rng.choice([1.0, 10.0, 1.0 / sum(w)])
            for k in range(len(ps)):
                bufs[k][c] = round(w[k] * sc, 6)
        for p, b in zip(ps, bufs):
            paths.append([p[0], b, p[1]])
    s["demand"] = keep
    s["paths"] = paths
    return s


# --------------------------------------------------------------------------
# writing
def _num(x):
    if isinstance(x, float):
        return repr(x)
    return str(x)


def write(s, d):
    os.makedirs(d, exist_ok=True)
    mc = s["kind"] == "mcdta"
    with open(os.path.join(d, "MNM_input_node"), "w") as f:
        f.write("# ID type\n" if not mc else "#ID Type CF\n")
        for n in s["nodes"]:
            f.write(" ".join(_num(x) for x in (n if mc else n[:2])) + "\n")
    with open(os.path.join(d, "MNM_input_link"), "w") as f:
        f.write("# ID type length ffs cap rhoj lanes\n")
        for l in s["links"]:
            r = [l[0]] + l[3:]
            f.write(" ".join(_num(x) for x in r) + "\n")
    with open(os.path.join(d, "Snap_graph"), "w") as f:
        f.write("# link from to\n")
        for l in s["links"]:
            f.write("%d %d %d\n" % (l[0], l[1], l[2]))
    with open(os.path.join(d, "MNM_input_od"), "w") as f:
        f.write("#Origin_ID <-> node_ID\n")
        for a, b in s["origins"]:
            f.write("%d %d\n" % (a, b))
        f.write("#Dest_ID <-> node_ID\n")
        for a, b in s["dests"]:
            f.write("%d %d\n" % (a, b))
    with open(os.path.join(d, "MNM_input_demand"), "w") as f:
        f.write("#Origin_ID Destination_ID demand\n")
        for r in s["demand"]:
            vals = r[2] + (r[3] if mc else [])
            f.write("%d %d %s\n" % (r[0], r[1], " ".join(_num(x) for x in vals)))
    if s.get("paths") is not None:
        with open(os.path.join(d, "path_table"), "w") as f:
            for p in s["paths"]:
                f.write(" ".join(str(x) for x in p[0]) + "\n")
        with open(os.path.join(d, "path_table_buffer"), "w") as f:
            for p in s["paths"]:
                f.write(" ".join(_num(x) for x in p[1]) + "\n")
    os.makedirs(os.path.join(d, "record"), exist_ok=True)
    for name, text in (s.get("files") or {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    st = s.get("stat", {})
    c = []
    c.append("[DTA]")
    kv = dict(network_name="Snap_graph", total_interval=s["total_interval"],
              unit_time=s["unit_time"], assign_frq=s["assign_frq"],
              start_assign_interval=0, max_interval=s["max_interval"],
              flow_scalar=s["flow_scalar"], num_of_link=len(s["links"]),
              num_of_node=len(s["nodes"]), num_of_O=len(s["origins"]),
              num_of_D=len(s["dests"]), OD_pair=len(s["demand"]),
              routing_type=s["routing"], init_demand_split=s["init_demand_split"])
    for k in ("adaptive_ratio", "adaptive_ratio_car", "adaptive_ratio_truck"):
        if k in s:
            kv[k] = s[k]
    kv.update(s.get("conf", {}))
    for k, v in kv.items():
        c.append("%s = %s" % (k, v))
    c.append("[STAT]")
    sv = dict(rec_mode="LRn", rec_mode_para=s["assign_frq"], rec_folder="record",
              rec_volume=1, volume_load_automatic_rec=0, volume_record_automatic_rec=0,
              rec_tt=1, tt_load_automatic_rec=0, tt_record_automatic_rec=0)
    sv.update(st)
    for k, v in sv.items():
        c.append("%s = %s" % (k, v))
    bl = s.get("buffer_length") or s["max_interval"] * (2 if s["routing"].startswith("Biclass") else 1)
    c.append("[FIXED]")
    for k, v in dict(path_file_name="path_table", num_path=len(s.get("paths") or []),
                     choice_portion="Buffer", buffer_length=bl,
                     route_frq=s["fixed_route_frq"]).items():
        c.append("%s = %s" % (k, v))
    c.append("[ADAPTIVE]")
    c.append("route_frq = %d" % s["route_frq"])
    if s.get("vot") is not None:
        c.append("vot = %s" % s["vot"])
    for sec, items in (s.get("sections") or {}).items():
        c.append("[%s]" % sec)
        for k, v in items.items():
            c.append("%s = %s" % (k, v))
    with open(os.path.join(d, "config.conf"), "w") as f:
        f.write("\n".join(c) + "\n")
    return d
