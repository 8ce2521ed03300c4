"""Multimodal: every traveller is released as the demand says, is in one place at a time and arrives where it is going."""
import math
import random

import mmnet
import mmor
import oracle

RULE = ("one evaluation = 2 random multimodal networks (roads, bus lines, walking links, park-and-ride lots) loaded with "
        "the monitor attached; every vehicle and passenger is followed from release to arrival; distinct = different "
        "(network size, bus lines, lots, explicit or scheduled buses, scalar, demand split)")
ASSUMPTIONS = ["well-formed inputs", "fractional demand is rounded at random: each count must be the floor or the ceiling, "
               "that of buses the floor"]
TIMEOUT = 120
VAR = [dict(), dict(explicit_bus=0), dict(pload=40, bus_capacity=3), dict(flow_scalar=1, pload=20),
       dict(pickup=[30, 60]), dict(adaptive_ratio_passenger=0.5, adaptive_ratio_car=0.5, adaptive_ratio_truck=0.3),
       dict(adaptive_ratio_passenger=1, adaptive_ratio_car=1, adaptive_ratio_truck=1), dict(routes=3, load=30)]


def scenarios(seed, n, salt, var=VAR, **fix):
    out = []
    i = 0
    while len(out) < n:
        rng = random.Random("%s/%d/%d" % (salt, seed, i))
        o = dict(var[i % len(var)])
        o.update(fix)
        s = mmnet.gen(rng, **o)
        i += 1
        if s["mm"]["bt_paths"] or s["mm"]["pnr_paths"]:
            s["seed"] = rng.randrange(2 ** 30)
            out.append(s)
    return out


def gen(tier, seed):
    n = 480 if tier == "quick" else 4000
    ss = scenarios(seed, n, "C23")
    return [dict(scens=ss[i:i + 2]) for i in range(0, len(ss), 2)]


def shape(s):
    m = s["mm"]
    return (len(s["links"]), len(m["buses"]), len(m["lots"]), m["explicit"], s["flow_scalar"], s["init_demand_split"],
            len(m["bt_paths"]), len(m["pnr_paths"]))


def load(ctx, s, d, flags=1):
    ctx.mon.config(flags)
    ctx.mp.set_random_state(s["seed"] % (2 ** 31))
    o = ctx.mp.Mmdta.from_files(d) if hasattr(ctx.mp, "Mmdta") else None
    if o is None:
        o = ctx.ext.Mmdta()
        o.initialize(d)
    o.install_cc()
    ctx.mon.reset()
    o.run_whole(False)
    return o


def run(ctx, case):
    pool = [0.0, 0.0]
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i), pool)
    return dict(pool=pool)


def finish(results):
    d = sum((r.get("extra") or {}).get("pool", [0, 0])[0] for c, r in results)
    v = sum((r.get("extra") or {}).get("pool", [0, 0])[1] for c, r in results)
    if results and v > 20 and abs(d) > 6 * math.sqrt(v):
        return [(results[0][0], "pooled releases: off by %.1f, standard deviation %.1f" % (d, math.sqrt(v)))]
    return []


def one(ctx, s, d, pool):
    o = load(ctx, s, d)
    ctx.sig(shape(s))
    st = [float(x) for x in o.get_travel_stats()]
    exp = mmor.schedule(s)
    # by the interface alone: everybody who was to be released is accounted for
    for k, names in enumerate((("car",), ("pnr",), ("truck",), ("bus",))):
        lo = sum(math.floor(x + 1e-9) for key, e in exp.items() if key[0] in names for x in e.values())
        hi = lo if names == ("bus",) else sum(math.ceil(x - 1e-9) for key, e in exp.items() if key[0] in names for x in e.values())
        got = st[k] * s["flow_scalar"]
        ctx.expect(lo - 1e-6 <= got <= hi + 1e-6, lambda: "%s: %.6g reported, the demand asks for %d to %d" % (names[0], got, lo, hi))
    if not ctx.mon.mm:
        return
    for seg in ctx.mon.segments():
        h = mmor.MM(s, seg)
        oracle.population(ctx, h)
        released(ctx, s, seg, exp, pool)
        passengers(ctx, s, seg)
        park(ctx, s, seg, h)
        drive(ctx, s, seg, h)
        travel(ctx, s, seg, h)


def released(ctx, s, seg, exp, pool):
    got = {}
    for v in seg.veh.values():
        got.setdefault((mmor.kind(v), v.o, v.d, v.bus if v.cls == 1 else -1), {}).setdefault(v.start, []).append(v)
        ctx.expect(v.start == v.seen, lambda: "vehicle %d appeared at %d with departure time %d" % (v.id, v.seen, v.start))
        ctx.expect(v.assign == v.start // s["assign_frq"], lambda: "vehicle %d released at %d is booked in column %d" % (v.id, v.start, v.assign))
    for p in seg.pax.values():
        ctx.expect(p.start == p.seen, lambda: "passenger %d appeared at %d with departure time %d" % (p.id, p.seen, p.start))
        if not p.pnr:
            got.setdefault(("passenger", p.o, p.d, -1), {}).setdefault(p.start, []).append(p)
            ctx.expect(p.assign == p.start // s["assign_frq"], lambda: "passenger %d released at %d is booked in column %d" % (p.id, p.start, p.assign))
    horizon = s["total_interval"]
    for k in set(got) | set(exp):
        e, g = exp.get(k, {}), got.get(k, {})
        for t in set(e) | set(g):
            if t >= horizon > 0:
                continue
            x = e.get(t, 0.0)
            n = len(g.get(t, []))
            hi = math.floor(x + 1e-9) if k[0] == "bus" else math.ceil(x - 1e-9)
            ctx.expect(math.floor(x + 1e-9) <= n <= hi, lambda: "%s from %d to %d (line %d) at %d: %d released, demand times scalar is %.6f"
                       % (k[0], k[1], k[2], k[3], t, n, x))
            ctx.count("releases")
            if k[0] != "bus":
                f = x - math.floor(x)
                pool[0] += n - x
                pool[1] += f * (1 - f)


def passengers(ctx, s, seg):
    ctx.expect(seg.dup == 0, "an identity was issued twice")
    ctx.expect(not seg.stray, lambda: "somebody queued who is not in the books: %s" % (seg.stray[:3],))
    created, gone, pc, pg, tt = {}, {}, {}, {}, {}
    for p in seg.pax.values():
        created[p.seen] = created.get(p.seen, 0) + 1
        pc[p.seen] = pc.get(p.seen, 0) + p.pnr
        if p.gone is not None:
            gone[p.gone] = gone.get(p.gone, 0) + 1
            pg[p.gone] = pg.get(p.gone, 0) + p.pnr
            tt[p.gone] = tt.get(p.gone, 0) + p.gone - p.start
        for t, cur, nx, path, bus, places, where in p.moves:
            ctx.expect(places == 1, lambda: "passenger %d is in %d places at %d (link %d)" % (p.id, places, t, cur))
            ctx.expect(where in (4, 5, 6, 7), lambda: "passenger %d was left behind at %d (kind of place %d)" % (p.id, t, where))
    n = g = np_ = ng = time = 0
    nb = sum(1 for _ in ())
    buses = {}
    bgone = {}
    for v in seg.veh.values():
        if mmor.kind(v) == "bus":
            buses[v.seen] = buses.get(v.seen, 0) + 1
            if v.gone is not None:
                bgone[v.gone] = bgone.get(v.gone, 0) + 1
    b = bg = 0
    for t, num, enr, fin, tot, pnum, penr, pfin, bnum, bfin, _c in seg.pcount:
        n += created.get(t, 0)
        g += gone.get(t, 0)
        np_ += pc.get(t, 0)
        ng += pg.get(t, 0)
        time += tt.get(t, 0)
        b += buses.get(t, 0)
        bg += bgone.get(t, 0)
        ctx.expect((num, fin, enr) == (n, g, n - g), lambda: "interval %d: passengers released, finished, en route %s reported, %s observed"
                   % (t, (num, fin, enr), (n, g, n - g)))
        ctx.expect((pnum, pfin, penr) == (np_, ng, np_ - ng), lambda: "interval %d: park-and-ride passengers %s reported, %s observed"
                   % (t, (pnum, pfin, penr), (np_, ng, np_ - ng)))
        ctx.expect((bnum, bfin) == (b, bg), lambda: "interval %d: buses %s reported, %s observed" % (t, (bnum, bfin), (b, bg)))
        ctx.expect(abs(tot - time) < 1e-5, lambda: "interval %d: %.6g intervals travelled by passengers, %d observed" % (t, tot, time))
    ctx.count("passengers", len(seg.pax))
    ctx.count("arrived_passengers", g)


def park(ctx, s, seg, h):
    """A park-and-ride car that reaches its lot turns into one passenger there and then."""
    lots = {q["node"]: q["id"] for q in s["mm"]["lots"]}
    cars, pax = {}, {}
    parked = {}
    for v in seg.veh.values():
        if v.gone is None:
            continue
        vis = h.visits[v.id]
        if not ctx.expect(bool(vis), lambda: "vehicle %d arrived without driving" % v.id):
            continue
        end = h.links[vis[-1][0]][2]
        if v.cls == 0 and end in lots:
            parked.setdefault(lots[end], {}).setdefault(v.gone, 0)
            parked[lots[end]][v.gone] += 1
        if not v.pnr:
            continue
        if ctx.expect(end in lots, lambda: "park-and-ride car %d ended at node %d, which has no lot" % (v.id, end)):
            k = (v.gone, v.o, v.d, v.assign, lots[end], v.type)
            cars[k] = cars.get(k, 0) + 1
    for p in seg.pax.values():
        if p.pnr:
            k = (p.seen, p.o, p.d, p.assign, p.lot, p.type)
            pax[k] = pax.get(k, 0) + 1
    for k in set(cars) | set(pax):
        ctx.expect(cars.get(k, 0) == pax.get(k, 0),
                   lambda: "at %d, from %d to %d (column %d) through lot %d: %d cars parked, %d passengers set out"
                   % (k[0], k[1], k[2], k[3], k[4], cars.get(k, 0), pax.get(k, 0)))
        ctx.count("park_and_ride", cars.get(k, 0))
    for lot, e in parked.items():
        rec = {}
        for t, n, occ in seg.lots.get(lot, []):
            rec[t] = n
        n = 0
        for t in sorted(e):
            n += e[t]
            ctx.expect(rec.get(t) == n, lambda: "lot %d holds %s cars at %d, %d drove in" % (lot, rec.get(t), t, n))


def drive(ctx, s, seg, h):
    fixed = {}
    for p in s["paths"]:
        fixed.setdefault((p[0][0], p[0][-1]), []).append(p)
    pnr = {}
    for p in s["mm"]["pnr_paths"]:
        pnr.setdefault((p["o"], p["d"]), []).append(p)
    lots = {q["node"] for q in s["mm"]["lots"]}
    for v in seg.veh.values():
        k = mmor.kind(v)
        vis = h.visits[v.id]
        pos = v.o
        for l, a, b in vis:
            if not ctx.expect(l in h.links and h.links[l][1] == pos, lambda: "%s %d jumped from node %d to link %d at %d" % (k, v.id, pos, l, a)):
                break
            pos = h.links[l][2]
        else:
            if v.gone is not None and k != "pnr":
                ctx.expect(pos == v.d, lambda: "%s %d for node %d was taken out at node %d" % (k, v.id, v.d, pos))
            elif v.gone is not None:
                ctx.expect(pos in lots, lambda: "park-and-ride car %d was taken out at node %d" % (v.id, pos))
        for (l1, a1, b1), (l2, a2, b2) in zip(vis, vis[1:]):
            ctx.expect(b1 == a2, lambda: "%s %d was on no link between %s and %d" % (k, v.id, b1, a2))
        seq = [l for l, _, _ in vis]
        if k == "bus":
            full = h.routes.get(v.bus, dict(links=[]))["links"]
            ctx.expect(seq == full[:len(seq)] and (v.gone is None or len(seq) == len(full)),
                       lambda: "bus %d of line %d drove %s, the line is %s" % (v.id, v.bus, seq, full))
            ctx.count("bus_links", len(seq))
        elif v.type == 1:
            col = mmor.column(s, v.start)
            opts = []
            if k == "pnr":
                opts = [p["dlinks"] for p in pnr.get((v.o, v.d), []) if share(pnr[(v.o, v.d)], p, col, "buf")]
            else:
                sh = lambda p, c: p[1][min(c + (s["max_interval"] if k == "truck" else 0), len(p[1]) - 1)]
                opts = [p[2] for p in fixed.get((v.o, v.d), []) if sh(p, col) > 0]
            done = v.gone is not None
            ctx.expect(any(seq == q[:len(seq)] and (not done or len(q) == len(seq)) for q in opts),
                       lambda: "%s %d from %d to %d released at %d drove %s, open routes are %s" % (k, v.id, v.o, v.d, v.start, seq, opts))
            ctx.count("fixed_routes")


def share(group, p, col, key):
    buf = p[key]
    return buf[min(col, len(buf) - 1)] > 0


def travel(ctx, s, seg, h):
    lots = {q["id"]: q["node"] for q in s["mm"]["lots"]}
    bt, pn = {}, {}
    for p in s["mm"]["bt_paths"]:
        bt.setdefault((p["o"], p["d"]), []).append(p)
    for p in s["mm"]["pnr_paths"]:
        pn.setdefault((p["o"], p["d"], p["lot"]), []).append(p)
    for p in seg.pax.values():
        ws = h.walks[p.id]
        pos = lots.get(p.lot) if p.pnr else p.o
        for l, a, b in ws:
            if not ctx.expect(l in h.tl and h.tl[l]["a"] == pos, lambda: "passenger %d jumped from %s to transit link %d at %d" % (p.id, pos, l, a)):
                break
            pos = h.tl[l]["b"]
        else:
            if p.gone is not None:
                ctx.expect(pos == p.d, lambda: "passenger %d for node %d was taken out at %s" % (p.id, p.d, pos))
        for (l1, a1, b1), (l2, a2, b2) in zip(ws, ws[1:]):
            ctx.expect(b1 == a2, lambda: "passenger %d was on no link between %s and %d" % (p.id, b1, a2))
        ctx.expect(bool(ws), lambda: "passenger %d never set out" % p.id)
        if p.type == 1:
            seq = [l for l, _, _ in ws]
            opts = [q["links"] for q in (pn.get((p.o, p.d, p.lot), []) if p.pnr else bt.get((p.o, p.d), []))
                    if p.pnr or q["buf"][min(mmor.column(s, p.start), len(q["buf"]) - 1)] > 0]
            done = p.gone is not None
            ctx.expect(any(seq == q[:len(seq)] and (not done or len(q) == len(seq)) for q in opts),
                       lambda: "passenger %d from %d to %d released at %d went %s, open routes are %s" % (p.id, p.o, p.d, p.start, seq, opts))
        # somebody rides exactly while on a link of the line
        if s["mm"]["explicit"]:
            for t, cur, nx, path, bus, places, where in p.moves:
                on = cur in h.tl and h.tl[cur]["kind"] == "bus"
                ctx.expect((bus >= 0) == on, lambda: "passenger %d on transit link %d at %d: in bus %d" % (p.id, cur, t, bus))
                if on and bus in seg.veh:
                    ctx.expect(seg.veh[bus].bus == h.tl[cur]["route"], lambda: "passenger %d rides line %d to travel on line %d"
                               % (p.id, seg.veh[bus].bus, h.tl[cur]["route"]))
        ctx.count("hops", len(ws))
