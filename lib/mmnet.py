"""Multimodal scenarios: a two-class road network with buses, walking and park-and-ride on top."""
import os
import random

import net

MILE = 1600.0


def fftt(l, unit):
    """Free-flow intervals of a driving link for cars."""
    return l[4] / l[5] * 3600.0 / unit


def transit_paths(tl, src, dst, rng, limit=4, maxlen=18):
    """Random simple paths through walking and bus links; riding is what boarding is for."""
    out = {}
    for l in tl:
        out.setdefault(l["a"], []).append(l)
    res = []
    budget = [6000]

    def rec(n, nodes, path):
        if len(res) >= 4 * limit or budget[0] <= 0:
            return
        budget[0] -= 1
        if n == dst and path:
            res.append([l["id"] for l in path])
            return
        if len(path) >= maxlen:
            return
        nxt = list(out.get(n, []))
        rng.shuffle(nxt)
        for l in nxt:
            if l["b"] in nodes:
                continue
            last = path[-1] if path else None
            if l["kind"] == "alighting" and (last is None or last["kind"] != "bus"):
                continue
            if last is not None and last["kind"] == "boarding" and l["kind"] != "bus":
                continue
            if l["kind"] == "normal" and last is not None and l["atype"] == "parking_lot":
                continue                    # no walking through a parking lot on the way
            nodes.append(l["b"])
            path.append(l)
            rec(l["b"], nodes, path)
            nodes.pop()
            path.pop()

    rec(src, [src], [])
    res.sort(key=len)
    return res[:limit]


def gen(rng, **o):
    if isinstance(rng, int):
        rng = random.Random(rng)
    g = o.get
    base = dict(o)
    base.setdefault("ltypes", ["PQ", "CTM"])
    base.setdefault("routing", "Biclass_Hybrid")
    base.setdefault("nO", rng.randint(1, 3))
    base.setdefault("nD", rng.randint(2, 3))
    base.setdefault("unit_time", rng.choice([5, 5, 5, 6, 10]))
    base.setdefault("inner", rng.randint(2, 6))
    base.setdefault("load", rng.choice([3, 8, 15]))
    s = net.gen(rng, "mcdta", **base)
    s["kind"] = "mmdta"
    unit = s["unit_time"]
    mi = s["max_interval"]
    scalar = s["flow_scalar"]
    links = {l[0]: l for l in s["links"]}
    onode = dict((i, n) for i, n in s["origins"])
    dnode = dict((i, n) for i, n in s["dests"])
    oid = {n: i for i, n in s["origins"]}
    did = {n: i for i, n in s["dests"]}
    explicit = g("explicit_bus", 1)
    ids = list(range(500, 3000))
    rng.shuffle(ids)
    nid = lambda: ids.pop()
    lid = list(range(1000, 4000))
    rng.shuffle(lid)
    nlid = lambda: lid.pop()

    # ---- routes
    nroutes = g("routes", rng.randint(1, 3))
    phys = {}          # id -> dict(link, loc, routes)
    virt = {}          # id -> dict(phys, route)
    buses = []         # routes
    tl = []            # transit links
    for _ in range(nroutes):
        for _try in range(20):
            o_, d_ = rng.choice(list(oid)), rng.choice(list(did))
            ps = net.simple_paths(s["links"], o_, d_, 4, rng=rng)
            if ps:
                break
        else:
            continue
        nodes, lks = rng.choice(ps)
        route = nid()
        # the first stop lies on the first link, the last on the last one
        stops = []
        for k, l in enumerate(lks):
            first, last = k == 0, k == len(lks) - 1
            want = 1 if (first or last) else (1 if rng.random() < g("stop_prob", 0.6) else 0)
            slots = fftt(links[l], unit)
            if want and slots >= 5 and rng.random() < g("two_stops", 0.35):
                want = 2
            locs = []
            if want == 2:
                locs = [rng.uniform(0.1, 0.3), rng.uniform(0.7, 0.95)]
            elif want == 1:
                locs = [rng.choice([0.0, 0.05, 0.5, 0.9, 1.0]) if rng.random() < 0.4 else rng.uniform(0.05, 0.95)]
            for loc in locs:
                stops.append((l, round(loc * links[l][4], 4)))
        if len(stops) < 2:
            continue
        vs = []
        for l, loc in stops:
            share = [p for p, q in phys.items() if q["link"] == l and route not in q["routes"]
                     and not any(p == virt[v]["phys"] for v in vs)]
            alone = len([1 for a, _ in stops if a == l]) == 1
            if share and alone and rng.random() < 0.6:
                p = rng.choice(share)
            else:
                p = nid()
                phys[p] = dict(link=l, loc=loc, routes=[])
            phys[p]["routes"].append(route)
            v = nid()
            virt[v] = dict(phys=p, route=route)
            vs.append(v)
        # stops of a route are visited in driving order
        for a, b in zip(vs, vs[1:]):
            la, lb = phys[virt[a]["phys"]]["link"], phys[virt[b]["phys"]]["link"]
            ia, ib = lks.index(la), lks.index(lb)
            over = lks[ia:ib + 1]
            pa, pb = phys[virt[a]["phys"]]["loc"], phys[virt[b]["phys"]]["loc"]
            length = (pb - pa) if ia == ib else (links[la][4] - pa) + pb + sum(links[x][4] for x in over[1:-1])
            tt = sum(links[x][4] / links[x][9] for x in over)
            tl.append(dict(id=nlid(), kind="bus", a=a, b=b, route=route, over=over,
                           len=round(max(length, 0.0), 5), time=round(tt, 6), atype="v", btype="v"))
        n_bus = []
        for _c in range(mi):
            n_bus.append(float(rng.choice(g("bus_levels", [0, 1, 1, 2]))))
        if sum(n_bus) == 0:
            n_bus[0] = 1.0
        buses.append(dict(route=route, o=o_, d=d_, nodes=nodes, links=lks, stops=vs, demand=n_bus))
    for v, q in virt.items():
        tl.append(dict(id=nlid(), kind="boarding", a=q["phys"], b=v, atype="bus_stop_physical",
                       btype="bus_stop_virtual", time=round(rng.choice([0, 0, 3.0]), 2)))
        tl.append(dict(id=nlid(), kind="alighting", a=v, b=q["phys"], atype="bus_stop_virtual",
                       btype="bus_stop_physical", time=round(rng.choice([0, 0, 3.0]), 2)))
    # ---- parking lots
    lots = []
    for n in did:
        if rng.random() < g("lot_prob", 0.7):
            lots.append(dict(id=nid(), node=n, price=rng.choice([0.0, 2.0, 5.0]),
                             surge=rng.choice([0.0, 1.0]), time=rng.choice([30.0, 60.0, 120.0]),
                             cap=float(rng.choice(g("lot_cap", [5, 30, 200])))))
    # ---- walking
    def walk(a, b, at, bt):
        t = rng.choice([0.0, unit * 0.5, unit, unit * 1.5]) if rng.random() < 0.25 else rng.uniform(5, g("walk_max", 120))
        tl.append(dict(id=nlid(), kind="normal", a=a, b=b, atype=at, btype=bt, time=round(t, 3)))

    pids = list(phys)
    rng.shuffle(pids)
    seen = set()
    for n in oid:
        for p in rng.sample(pids, min(len(pids), rng.randint(1, 3))):
            walk(n, p, "origin", "bus_stop_physical")
        if rng.random() < g("walk_all", 0.2):
            walk(n, rng.choice(list(did)), "origin", "destination")
    for n in did:
        for p in rng.sample(pids, min(len(pids), rng.randint(1, 3))):
            walk(p, n, "bus_stop_physical", "destination")
    for q in lots:
        for p in rng.sample(pids, min(len(pids), rng.randint(1, 2))):
            walk(q["node"], p, "parking_lot", "bus_stop_physical")
        other = [n for n in did if n != q["node"]]
        if other and rng.random() < 0.3:
            walk(q["node"], rng.choice(other), "parking_lot", "destination")
    for _ in range(rng.randint(0, 3)):
        if len(pids) < 2:
            break
        a, b = rng.sample(pids, 2)
        if (a, b) not in seen:
            seen.add((a, b))
            walk(a, b, "bus_stop_physical", "bus_stop_physical")
    # parallel walking links between one pair would be ambiguous on a path given by its nodes
    uniq, keep = set(), []
    for l in tl:
        if (l["a"], l["b"]) in uniq:
            continue
        uniq.add((l["a"], l["b"]))
        keep.append(l)
    tl = keep
    rng.shuffle(tl)

    # ---- paths and demand
    def shares(k, cols):
        m = []
        for _ in range(cols):
            w = [rng.choice([0, 1, 1, 2]) * rng.random() for _ in range(k)]
            if sum(w) <= 0:
                w[rng.randrange(k)] = 1.0
            m.append(w)
        return [[round(m[c][i], 6) for c in range(cols)] for i in range(k)]

    load = g("pload", rng.choice([2, 6, 15]))

    def vec():
        return [float(int(rng.uniform(0, load))) if rng.random() < 0.5 else round(rng.uniform(0, load), 3)
                for _ in range(mi)]

    bt_paths, bt_demand = [], []
    for n in oid:
        for m in did:
            ps = transit_paths(tl, n, m, rng, g("npaths", 3))
            if ps and rng.random() < 0.9:
                for p, b in zip(ps, shares(len(ps), mi)):
                    bt_paths.append(dict(o=n, d=m, links=p, buf=b))
                bt_demand.append([oid[n], did[m], vec()])
    pnr_paths, pnr_demand = [], []
    for n in oid:
        for m in did:
            opts = []
            for q in lots:
                if q["node"] == m:
                    continue
                dp = net.simple_paths(s["links"], n, q["node"], 2, rng=rng)
                tp = transit_paths(tl, q["node"], m, rng, 2)
                for a in dp:
                    for b in tp:
                        opts.append((q, a, b))
            if not opts or rng.random() < 0.1:
                continue
            rng.shuffle(opts)
            opts = opts[:g("npaths", 3)]
            for (q, a, b), buf in zip(opts, shares(len(opts), mi)):
                pnr_paths.append(dict(o=n, d=m, lot=q["id"], mid=q["node"], nodes=a[0], dlinks=a[1],
                                      links=b, buf=buf))
            pnr_demand.append([oid[n], did[m], vec()])
    # every pair with any path needs a line in the passenger demand
    pairs = {(r[0], r[1]) for r in s["demand"]}
    pairs |= {(r[0], r[1]) for r in bt_demand} | {(r[0], r[1]) for r in pnr_demand}
    tot = []
    for a, b in sorted(pairs):
        v = [0.0] * mi
        for src in (s["demand"], bt_demand, pnr_demand):
            for r in src:
                if (r[0], r[1]) == (a, b):
                    v = [x + y for x, y in zip(v, r[2])]
        tot.append([a, b, [round(x, 6) for x in v]])
    s["origins"] = [[i, n, rng.choice(g("pickup", [0, 0, unit * 2, unit * 3 + 1]))] for i, n in s["origins"]]
    horizon = g("mm_total", None)
    if horizon is None:
        horizon = mi * s["assign_frq"] + rng.choice([120, 240, 400])
    s["total_interval"] = horizon
    s["mm"] = dict(phys=[[k, v["link"], v["loc"], v["routes"]] for k, v in phys.items()],
                   virt=[[k, v["phys"], v["route"]] for k, v in virt.items()],
                   lots=lots, tl=tl, buses=buses, bt_paths=bt_paths, bt_demand=bt_demand,
                   pnr_paths=pnr_paths, pnr_demand=pnr_demand, passengers=tot,
                   explicit=explicit,
                   hist=0 if explicit else g("hist", rng.choice([0, 3, 12])),
                   capacity=g("bus_capacity", rng.choice([1, 2, 5, 40])),
                   dwell=g("dwell", rng.choice([0, unit, 2 * unit, 20])),
                   lost=g("lost", rng.choice([0, 0, unit, 2 * unit])),
                   alight=g("alight", rng.choice([1, 2, 3, 5])),
                   board=g("board", rng.choice([1, 2, 3, 5])),
                   ratio_p=g("adaptive_ratio_passenger", 0))
    s["adaptive_ratio_car"] = g("adaptive_ratio_car", 0)
    s["adaptive_ratio_truck"] = g("adaptive_ratio_truck", 0)
    return s


def write(s, d):
    os.makedirs(d, exist_ok=True)
    m = s["mm"]
    num = net._num

    def put(name, head, rows):
        with open(os.path.join(d, name), "w") as f:
            if head is not None:
                f.write(head + "\n")
            for r in rows:
                f.write(" ".join(num(x) for x in r) + "\n")

    put("driving_node", "#ID Type CF", s["nodes"])
    put("driving_link", "#ID type ...", [[l[0]] + l[3:] for l in s["links"]])
    put("graph", "# link from to", [[l[0], l[1], l[2]] for l in s["links"]])
    with open(os.path.join(d, "od"), "w") as f:
        f.write("#Origin_ID node pickup\n")
        for r in s["origins"]:
            f.write("%d %d %s\n" % tuple(r))
        f.write("#Dest_ID node\n")
        for a, b in s["dests"]:
            f.write("%d %d\n" % (a, b))
    put("bus_stop_physical", "#id link loc routes", [[p[0], p[1], p[2]] + p[3] for p in m["phys"]])
    put("bus_stop_virtual", "#id phys route", m["virt"])
    put("parking_lot", "#id node price surge time cap",
        [[q["id"], q["node"], q["price"], q["surge"], q["time"], q["cap"]] for q in m["lots"]])
    wl = [l for l in m["tl"] if l["kind"] != "bus"]
    bl = [l for l in m["tl"] if l["kind"] == "bus"]
    put("walking_link", "#id from to ft tt type time",
        [[l["id"], l["a"], l["b"], l["atype"], l["btype"], l["kind"], l["time"]] for l in wl])
    put("bus_link", "#id from to len fftt route links",
        [[l["id"], l["a"], l["b"], l["len"], l["time"], l["route"]] + l["over"] for l in bl])
    put("driving_demand", "#O D cars trucks", [[r[0], r[1]] + r[2] + r[3] for r in s["demand"]])
    oid = {r[1]: r[0] for r in s["origins"]}
    did = {r[1]: r[0] for r in s["dests"]}
    put("bus_demand", "#O D route n", [[oid[b["o"]], did[b["d"]], b["route"]] + b["demand"] for b in m["buses"]])
    put("pnr_demand", "#O D n", [[r[0], r[1]] + r[2] for r in m["pnr_demand"]])
    put("bustransit_demand", "#O D n", [[r[0], r[1]] + r[2] for r in m["bt_demand"]])
    put("passenger_demand", "#O D n", [[r[0], r[1]] + r[2] for r in m["passengers"]])
    put("driving_path_table", None, [p[0] for p in s["paths"]])
    put("driving_path_table_buffer", None, [p[1] for p in s["paths"]])
    put("bus_path_table", "#O D route nodes", [[b["o"], b["d"], b["route"]] + b["nodes"] for b in m["buses"]])
    put("bus_route", "#O D route stops", [[b["o"], b["d"], b["route"]] + b["stops"] for b in m["buses"]])
    put("pnr_path_table", "#O D lot mid nodes links",
        [[p["o"], p["d"], p["lot"], p["mid"]] + p["nodes"] + p["links"] for p in m["pnr_paths"]])
    put("pnr_path_table_buffer", None, [p["buf"] for p in m["pnr_paths"]])
    put("bustransit_path_table", "#O D links", [[p["o"], p["d"]] + p["links"] for p in m["bt_paths"]])
    put("bustransit_path_table_buffer", None, [p["buf"] for p in m["bt_paths"]])
    os.makedirs(os.path.join(d, "record"), exist_ok=True)
    for name, text in (s.get("files") or {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    c = ["[DTA]"]
    kv = dict(network_name="graph", total_interval=s["total_interval"], unit_time=s["unit_time"],
              assign_frq=s["assign_frq"], start_assign_interval=0, max_interval=s["max_interval"],
              flow_scalar=s["flow_scalar"], num_of_link=len(s["links"]), num_of_node=len(s["nodes"]),
              num_of_O=len(s["origins"]), num_of_D=len(s["dests"]),
              num_of_bus_stop_physical=len(m["phys"]), num_of_bus_stop_virtual=len(m["virt"]),
              num_of_parking_lot=len(m["lots"]), num_of_walking_link=len(wl), num_of_bus_link=len(bl),
              num_bus_routes=len(m["buses"]), num_of_bus_routes=len(m["buses"]),
              OD_pair=len(s["demand"]), OD_pair_passenger=len(m["passengers"]),
              OD_pair_driving=len(s["demand"]), OD_pair_pnr=len(m["pnr_demand"]),
              OD_pair_bustransit=len(m["bt_demand"]), init_demand_split=s["init_demand_split"],
              bus_capacity=m["capacity"], fixed_dwell_time=m["dwell"], boarding_lost_time=m["lost"],
              alighting_time_per_passenger=m["alight"], boarding_time_per_passenger=m["board"],
              explicit_bus=m["explicit"], historical_bus_waiting_time=m["hist"],
              adaptive_ratio_car=s["adaptive_ratio_car"], adaptive_ratio_truck=s["adaptive_ratio_truck"],
              adaptive_ratio_passenger=m["ratio_p"], routing_type=s.get("mm_routing", "Multimodal_Hybrid"))
    kv.update(s.get("conf", {}))
    c += ["%s = %s" % x for x in kv.items()]
    c.append("[STAT]")
    sv = dict(rec_mode="LRn", rec_mode_para=s["assign_frq"], rec_folder="record",
              rec_volume=1, volume_load_automatic_rec=0, volume_record_automatic_rec=0,
              rec_tt=1, tt_load_automatic_rec=0, tt_record_automatic_rec=0)
    sv.update(s.get("stat", {}))
    c += ["%s = %s" % x for x in sv.items()]
    c.append("[FIXED]")
    fx = dict(driving_path_file_name="driving_path_table", num_driving_path=len(s["paths"]),
              pnr_path_file_name="pnr_path_table", num_pnr_path=len(m["pnr_paths"]),
              bustransit_path_file_name="bustransit_path_table", num_bustransit_path=len(m["bt_paths"]),
              bus_path_file_name="bus_path_table", bus_route_file_name="bus_route",
              num_bus_routes=len(m["buses"]), choice_portion="Buffer",
              buffer_length=s.get("mm_buffer") or 2 * s["max_interval"], route_frq=s["fixed_route_frq"])
    c += ["%s = %s" % x for x in fx.items()]
    c.append("[ADAPTIVE]")
    c.append("route_frq = %d" % s["route_frq"])
    c.append("vot = %s" % (s["vot"] if s.get("vot") is not None else 20))
    c.append("[MMDUE]")
    mm = dict(driving=1, transit=1 if m["bt_paths"] else 0, pnr=1 if m["pnr_paths"] else 0,
              alpha1_driving=0.5, alpha1_transit=1.0, alpha1_pnr=0.8, beta1=0.1, vot=20,
              early_penalty=10, late_penalty=40, target_time=30,
              parking_lot_to_destination_walking_time=60, carpool_cost_multiplier=1, bus_fare=2,
              metro_fare=2, pnr_inconvenience=1, bus_inconvenience=1, max_iter=2, step_size=0.1)
    mm.update(s.get("mmdue", {}))
    c += ["%s = %s" % x for x in mm.items()]
    with open(os.path.join(d, "config.conf"), "w") as f:
        f.write("\n".join(c) + "\n")
    return d
