"""Links and junctions respect speed, capacity, storage and order."""
import math
import random

import numpy as np
import oracle
import wl
from sim import step_curve

RULE = ("one evaluation = 4 scenarios of one kind: mixed networks (bounds on every link and tick), point-queue networks "
        "(tick-exact junction model), lone vehicles, saturated corridors, blocked corridors; distinct = scenario shapes")
ASSUMPTIONS = ["junctions proportionally share an overloaded exit; in two-class loading each entry may overshoot by one vehicle",
               "links where the travel time or the capacity per interval sits on a rounding edge are left out of the exact model"]
TIMEOUT = 60
MILE = 1600.0


def gen(tier, seed):
    k = 1 if tier == "quick" else 14
    out = []
    for kind, var in (("dta", wl.SINGLE), ("mcdta", wl.MULTI)):
        fx = [dict(routing="Fixed", tight=True, load=40), dict(routing="Fixed", ltypes=["CTM"], tight=True, load=60),
              dict(routing="Fixed", ltypes=["LQ"], load=60, tight=True)]
        out += wl.chunks(wl.scenarios(seed, 60 * k, kind, "C05m", var + fx), 4, mode="mixed")
        pq = [dict(routing="Fixed", ltypes=["PQ"], load=60, tight=True), dict(routing="Fixed", ltypes=["PQ"], load=15),
              dict(routing="Fixed", ltypes=["PQ"], load=90, tight=True, inner=6, nO=3, nD=3)]
        if kind == "dta":
            pq.append(dict(routing="Fixed", ltypes=["PQ"], load=60, tight=True, flow_scalar=1))
            gj = [dict(routing="Fixed", ltypes=["PQ"], junctions=["GRJ"], load=a, tight=b, inner=c, nO=3, nD=3)
                  for a, b, c in ((60, True, 4), (25, True, 7), (90, False, 5), (120, True, 3))]
            out += wl.chunks(wl.scenarios(seed, 40 * k, kind, "C05g", gj), 4, mode="exact")
        out += wl.chunks(wl.scenarios(seed, 60 * k, kind, "C05p", pq), 4, mode="exact")
        for mode, n in (("lone", 32 * k), ("saturated", 24 * k), ("blocked", 24 * k), ("short", 32 * k), ("lowcap", 12 * k)):
            ss = []
            for i in range(n):
                rng = random.Random("C05%s/%s/%d/%d" % (mode, kind, seed, i))
                ss.append(corridor(rng, kind, mode, i))
            out += wl.chunks(ss, 4, mode=mode)
    return out


def corridor(rng, kind, mode, i):
    """origin -> a -> link of interest -> b (-> bottleneck) -> destination"""
    mc = kind == "mcdta"
    conv = rng.choice([1.0, 1.5, 2.0] if mode != "short" else [1.0, 2.0, 3.0])
    unit = 5
    scalar = rng.choice([1, 2, 4]) if not mc else rng.choice([1, 2])
    typ = ["PQ", "CTM", "LQ"][i % 3]
    if mode in ("blocked", "lowcap"):
        typ = ["CTM", "LQ"][i % 2]
    if mode == "short":
        typ = "LQ" if i % 2 and not mc else "CTM"
    ffs = rng.choice([20, 30, 45, 60])
    lanes = rng.randint(1, 3)
    need = 3600.0 / unit / scalar / lanes
    cap = round(max(rng.uniform(1000, 2000), 1.1 * need), 1)
    rhoj = round(max(2.4 * cap / ffs, rng.choice([150, 200])), 1)
    if typ == "CTM" and rhoj > 290:
        ffs = 65
        rhoj = round(min(290, max(2.4 * cap / ffs, 180)), 1)
    cells = rng.randint(1, 9)
    if mode == "short":
        # anything from slow to fast waves back through the link, and a link of one cell
        cells = 1
        rhoj = round(cap / ffs * rng.uniform(1.6, 6), 1)
    if mode == "lowcap":
        cap = round(need * rng.uniform(0.2, 0.7), 1)
        rhoj = rng.choice([150, 200])
    length = round(ffs * unit / 3600.0 * (cells + rng.choice([0.3, 0.5, 0.7])), 4)
    L = [1, 2, 3, typ, length, ffs, cap, rhoj, lanes]
    big = [11, 1, 2, "PQ", 0.05, 40, 99999, 99999, 4]
    end = [12, 3, 4, "PQ", 0.05, 40, 99999, 99999, 4]
    if mode in ("blocked", "short"):
        small = max(cap * lanes * rng.uniform(0.3, 0.6), 1.15 * 3600.0 / unit / scalar)
        end = [12, 3, 4, "PQ", 0.05, 40, round(small, 1), 99999, 1]
    links = [L, big, end]
    if mc:
        k = rng.choice([1.0, 0.8])
        links = [l + [round(l[5] * k, 3), l[6], l[7], conv] for l in links]
    nodes = [[1, "DMOND", conv], [2, "FWJ", conv], [3, "FWJ" if mc else rng.choice(["FWJ", "GRJ"]), conv], [4, "DMDND", conv]]
    if mode == "lone":
        assign, maxint, v = (12 if mc else 40), 1, [1.0 / scalar if not mc else 1.0]
        v2 = [0.0]
        if mc:
            v = [1.0 / scalar]
            if rng.random() < 0.5:
                v, v2 = v2, v
    else:
        assign, maxint = (60 if mc else 24), 3
        v = [round((cap if mode != "lowcap" else 2 * need) * lanes * 1.5 / 3600 * unit * assign)] * maxint
        v2 = [0.0] * maxint
        if mc and rng.random() < 0.5 + 0.3 * (mode == "short"):
            v2 = [round(x * (0.3 if mode != "short" else rng.choice([0.3, 1.0, 3.0]))) for x in v]
    d = [1, 1, [float(x) for x in v]] + ([[float(x) for x in v2]] if mc else [])
    return dict(kind=kind, unit_time=unit, assign_frq=assign, max_interval=maxint, total_interval=-1, flow_scalar=scalar,
                nodes=nodes, links=links, origins=[[1, 1]], dests=[[1, 4]], demand=[d], routing="Fixed", route_frq=assign,
                fixed_route_frq=assign, init_demand_split=1, seed=rng.randint(1, 2 ** 30),
                paths=[[[1, 2, 3, 4], [1.0] * maxint, [11, 1, 12]]])


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        d = ctx.write(s, "n%d" % i)
        ctx.sig(case["mode"] + " " + wl.shape(s))
        globals()[case["mode"]](ctx, s, d)


class Phys:
    def __init__(self, s, l):
        unit = s["unit_time"]
        self.mc = s["kind"] == "mcdta"
        self.typ, self.len, self.ffs, self.cap, self.rhoj, self.lanes = l[3:9]
        cap, rhoj = self.cap, self.rhoj
        if self.typ == "CTM":
            cap = min(cap, 3500.0)
            rhoj = min(rhoj, 400.0 if self.mc else 300.0)
        elif self.mc:
            cap = min(cap, 3500.0) if self.typ == "LQ" else cap
            rhoj = min(rhoj, 400.0) if self.typ == "LQ" else rhoj
        self.S = cap / 3600.0 * self.lanes * unit              # vehicles per interval
        self.cells = 1
        self.S1 = max(self.S, 1.0 / s["flow_scalar"]) if self.typ != "PQ" else self.S
        if self.typ == "LQ" and self.mc:
            # the two-class link queue adds what each class may take on its share of the road
            self.S1 = max(self.S1, l[12] * min(l[10], 3500.0) / 3600.0 * self.lanes * unit)
        ffs_max = max(self.ffs, l[9]) if self.mc else self.ffs
        self.cell = ffs_max * unit / 3600.0
        self.x = self.len / (ffs_max * unit / 3600.0)
        self.near = abs(self.x - round(self.x)) < 1e-6
        self.stay = max(1, int(math.floor(self.x - 1e-9))) if self.typ != "LQ" else 1
        if self.typ == "CTM":
            self.cells = max(1, int(self.x))
        self.jam = rhoj * self.lanes * max(self.len, self.cell)


def hist(ctx, s, d, flags=1):
    o = ctx.load(s, d, flags=flags)
    segs = ctx.mon.segments()
    return o, (oracle.History(s, segs[0]) if segs else None)


def mixed(ctx, s, d):
    o, h = hist(ctx, s, d)
    T = o.get_cur_loading_interval()
    mc = s["kind"] == "mcdta"
    sc = s["flow_scalar"]
    conv = s["nodes"][0][2]
    ntype = {n[0]: n[1] for n in s["nodes"]}
    nin = {}
    for l in s["links"]:
        nin[l[2]] = nin.get(l[2], 0) + 1
    for l in s["links"]:
        p = Phys(s, l)
        if mc:
            ci = step_curve(o.get_car_link_in_cc(l[0]), T), step_curve(o.get_truck_link_in_cc(l[0]), T)
            co = step_curve(o.get_car_link_out_cc(l[0]), T), step_curve(o.get_truck_link_out_cc(l[0]), T)
            w = conv if ntype[l[1]] != "DMOND" else 1.0
            inflow = np.diff(ci[0] + w * ci[1])
            occ = (ci[0] + ci[1]) - (co[0] + co[1])
            ent = ci[0] + ci[1]
            ext = co[0] + co[1]
        else:
            ent = step_curve(o.get_link_in_cc(l[0]), T)
            ext = step_curve(o.get_link_out_cc(l[0]), T)
            inflow = np.diff(ent)
            occ = ent - ext
        if ntype[l[1]] == "DMOND":
            bound = math.ceil(p.S * sc - 1e-9)
        elif mc:
            bound = max(p.S1, 1.0 / sc) * sc + nin.get(l[1], 1) * max(1.0, conv) + 1e-6
        else:
            bound = p.S1 * sc + 1e-6
        k = int(np.argmax(inflow)) if len(inflow) else 0
        ctx.expect(len(inflow) == 0 or inflow[k] * sc <= bound + 1e-6,
                   lambda: "link %d (%s) took in %.4g vehicles in interval %d, its capacity is %.4g" % (l[0], p.typ, inflow[k] * sc, k, bound))
        if p.typ == "CTM" or (p.typ == "LQ" and not mc):
            jam = (p.jam + p.S1) * sc + (nin.get(l[1], 1) if mc else 1) + (2 if mc else 1) * p.cells
            ctx.expect(occ.max() * sc <= jam + 1e-6, lambda: "link %d (%s) held %.4g vehicles, its storage is %.4g" % (l[0], p.typ, occ.max() * sc, jam))
            ctx.count("storage_limited", int(occ.max() * sc > 0.7 * jam))
        # nobody is faster than the free-flow speed: those out by t were in by t - stay
        if p.stay > 1 and not p.near and T > p.stay:
            ctx.expect((ent[:-p.stay] - ext[p.stay:]).min() > -1e-6, lambda: "link %d (%s): vehicles left sooner than %d intervals after entering" % (l[0], p.typ, p.stay))
        ctx.count("link_ticks", T)
        ctx.count("at_capacity", int((inflow * sc > 0.8 * p.S1 * sc).sum()))
    if h is None:
        return
    ph = {l[0]: Phys(s, l) for l in s["links"]}
    order = {}
    for v in h.seg.veh.values():
        vis = h.visits[v.id]
        for i, (l, a, b) in enumerate(vis):
            if b is None:
                continue
            if not ph[l].near:
                ctx.expect(b - a >= ph[l].stay, lambda: "vehicle %d crossed link %d in %d intervals, free flow takes %d" % (v.id, l, b - a, ph[l].stay))
            if s["routing"] == "Fixed":
                nx = vis[i + 1][0] if i + 1 < len(vis) else -1
                order.setdefault((l, nx, v.cls), []).append((a, b))
    for (l, nx, cls), ab in order.items():
        if ph[l].typ == "LQ" and s["kind"] == "mcdta":
            continue
        ab.sort()
        best = -1
        i = 0
        while i < len(ab):
            j = i
            m = best
            while j < len(ab) and ab[j][0] == ab[i][0]:
                ctx.expect(ab[j][1] >= best, lambda: "link %d to %d: a vehicle that entered at %d left at %d, after an earlier one left at %d"
                           % (l, nx, ab[j][0], ab[j][1], best))
                m = max(m, ab[j][1])
                j += 1
            best = m
            i = j
            ctx.count("fifo_pairs")


def exact(ctx, s, d):
    o, h = hist(ctx, s, d)
    if h is None:
        return
    mc = s["kind"] == "mcdta"
    sc = float(s["flow_scalar"])
    T = h.T
    lk = {l[0]: l for l in s["links"]}
    ph = {l: Phys(s, lk[l]) for l in lk}
    conv = {n[0]: n[2] for n in s["nodes"]}
    ntype = {n[0]: n[1] for n in s["nodes"]}
    nin = {}
    for l in s["links"]:
        nin[l[2]] = nin.get(l[2], 0) + 1
    cap = {l: ph[l].S * sc for l in lk}
    entries = {}
    for v in h.seg.veh.values():
        for l, a, b in h.visits[v.id]:
            entries[(l, a)] = entries.get((l, a), 0) + 1
    bad = {l for l in lk if ph[l].near}
    for (l, a), n in entries.items():
        if n > (math.ceil(cap[l] - 1e-9) if mc else math.floor(cap[l] + 1e-9)):
            bad.add(l)
    # ready[(out link, t)] : in-link -> number and weight of those that may pass; moved likewise
    want = {}
    moved = {}
    for v in h.seg.veh.values():
        if not v.moves or v.moves[0][3] < 0:
            continue
        path = h.seg.paths.get(v.moves[-1][3])
        vis = h.visits[v.id]
        w0 = 1.0 if v.cls == 0 else None
        # leaving the origin
        if path:
            first = path[0]
            t_in = vis[0][1] if vis else None
            for t in range(v.seen, (t_in if t_in is not None else T - 1) + 1):
                e = want.setdefault((first, t), {})
                e[-1] = e.get(-1, 0) + 1
            if t_in is not None:
                e = moved.setdefault((first, t_in), {})
                e[-1] = e.get(-1, 0) + 1
        for i, (l, a, b) in enumerate(vis):
            ready = a + ph[l].stay
            if i + 1 < len(path):
                nx = path[i + 1]
                w = 1.0 if v.cls == 0 else conv[lk[l][2]]
                for t in range(ready, (b if b is not None else T - 1) + 1):
                    e = want.setdefault((nx, t), {})
                    e[l] = e.get(l, 0) + w
                if b is not None:
                    if l not in bad:
                        ctx.expect(b >= ready, lambda: "vehicle %d left link %d at %d, not ready before %d" % (v.id, l, b, ready))
                    e = moved.setdefault((nx, b), {})
                    e[l] = e.get(l, 0) + w
            elif l not in bad:
                exp = ready if ready < T else None
                ctx.expect(b == exp, lambda: "vehicle %d, at the end of its trip on link %d since %d, was taken out at %s instead of %s" % (v.id, l, a, b, exp))
    grj = {}
    bias = {}
    for (l, t), ins in want.items():
        if ntype[lk[l][1]] == "GRJ":
            grj.setdefault((lk[l][1], t), {})[l] = ins
            continue
        if any(i in bad for i in ins):
            continue
        S = cap[l]
        m = moved.get((l, t), {})
        tot, got = sum(ins.values()), sum(m.values())
        node = lk[l][1]
        if ntype[node] == "DMOND":
            if tot <= S:
                ok = abs(got - tot) < 1e-6
            else:
                ok = math.floor(S - 1e-9) <= got <= math.ceil(S - 1e-9) + 1e-9
                b = bias.setdefault(l, [0.0, 0.0])
                b[0] += got - S
                b[1] += (S - math.floor(S)) * (math.ceil(S) - S)
        elif tot <= S + 1e-9 and abs(tot - S) > 1e-9:
            ok = abs(got - tot) < 1e-6
        elif abs(tot - S) <= 1e-9:
            ok = True
        elif mc:
            ok = got >= min(tot, S) - 1e-3 * len(ins) - 1e-6 and got < S + nin[node] * max(1.0, conv[node]) + 1e-6
            for i, w in m.items():
                ok = ok and w < ins.get(i, 0) * S / tot + max(1.0, conv[node]) + 1e-6
        else:
            ok = S - len(ins) - 1e-6 < got <= S + 1e-6
            for i, w in m.items():
                ok = ok and w <= math.ceil(ins.get(i, 0) * S / tot - 1e-9) + 1e-6
        ctx.expect(ok, lambda: "node %d to link %d at interval %d: %.4g (by entry %s) wanted to pass, capacity %.4g, %.4g (%s) passed" % (node, l, t, tot, ins, S, got, m))
        ctx.count("junction_decisions")
        ctx.count("congested_decisions", int(tot > S))
    for l, (b, var) in bias.items():
        ctx.expect(abs(b) <= 6.5 * math.sqrt(var) + 1.5,
                   lambda: "link %d out of its origin: with a queue waiting it took in %.4g vehicles more than its capacity of %.4g per interval allows" % (l, b, cap[l]))
        ctx.count("origin_capacity_sums")
    for (node, t), outs in grj.items():
        junction(ctx, node, t, outs, moved, cap, bad)


def junction(ctx, node, t, outs, moved, cap, bad):
    """General road junction: one factor theta for all entries, the largest that overloads no exit."""
    if any(i in bad for e in outs.values() for i in e):
        return
    d = {}
    for e in outs.values():
        for i, w in e.items():
            d[i] = d.get(i, 0) + w
    ins = sorted(d)
    C = {i: max(d[i], cap[i]) for i in ins}
    theta = max(d[i] / C[i] for i in ins)
    for j, e in outs.items():
        best = -math.inf
        for k in range(1, 1 << len(ins)):
            up = sum(e.get(i, 0) for x, i in enumerate(ins) if not k >> x & 1)
            down = sum(C[i] * e.get(i, 0) / d[i] for x, i in enumerate(ins) if k >> x & 1)
            if down > 0:
                best = max(best, (cap[j] - up) / down)
            elif up <= cap[j]:
                best = math.inf
        theta = min(theta, best)
    full = False
    for j, e in outs.items():
        m = moved.get((j, t), {})
        low = 0
        for i, w in e.items():
            f = min(d[i], theta * C[i]) * w / d[i]
            ctx.expect(m.get(i, 0) <= math.ceil(f - 1e-6),
                       lambda: "node %d at interval %d: %d passed from link %d to %d, where %.5g should (%s want to pass)" % (node, t, m.get(i, 0), i, j, f, outs))
            low += math.floor(f + 1e-6)
            full = full or f < w - 1e-6
        got = sum(m.values())
        ctx.expect(got >= min(low, math.floor(cap[j] + 1e-9)) and got <= cap[j] + 1e-6,
                   lambda: "node %d at interval %d: %d (%s) passed to link %d of capacity %.4g, at least %d should (%s want to pass)" % (node, t, got, m, j, cap[j], low, outs))
        ctx.count("junction_decisions")
    ctx.count("congested_decisions", int(full))
    ctx.count("grj_decisions")
    ctx.count("grj_entries%d_exits%d" % (min(4, len(ins)), min(4, len(outs))))


def lone(ctx, s, d):
    o, h = hist(ctx, s, d)
    l = s["links"][0]
    p = Phys(s, l)
    T = o.get_cur_loading_interval()
    mc = s["kind"] == "mcdta"
    truck = mc and s["demand"][0][2][0] == 0
    if mc:
        nm = "truck" if truck else "car"
        a = getattr(o, "get_%s_link_in_cc" % nm)(1)
        b = getattr(o, "get_%s_link_out_cc" % nm)(1)
    else:
        a, b = o.get_link_in_cc(1), o.get_link_out_cc(1)
    if not ctx.expect(len(a) == 2 and len(b) == 2, "a single vehicle gave curves %s %s" % (a.tolist(), b.tolist())):
        return
    dt = b[1, 0] - a[1, 0]
    ctx.count("lone_trips")
    if p.typ == "LQ":
        ctx.expect(dt >= 1, "a lone vehicle crossed a link-queue link in %g intervals" % dt)
        return
    if truck and p.typ == "CTM":
        # trucks are slower; they move a cell when the density they see lets them
        ctx.expect(dt >= p.stay, "a lone truck crossed the link in %g intervals, free flow takes %d" % (dt, p.stay))
        return
    exp = max(1, int(math.floor(l[4] / (l[5] * s["unit_time"] / 3600.0) + 1e-9)))
    ctx.expect(dt == exp, "a lone vehicle crossed link (%s, %.4f mi at %g mph) in %g intervals, free flow takes %d" % (p.typ, l[4], l[5], dt, exp))


def saturated(ctx, s, d):
    o = ctx.load(s, d)
    l = s["links"][0]
    p = Phys(s, l)
    T = o.get_cur_loading_interval()
    mc = s["kind"] == "mcdta"
    conv = s["nodes"][0][2]
    if mc:
        cc = [[step_curve(getattr(o, "get_%s_link_%s_cc" % (c, w))(1), T) for w in ("in", "out")] for c in ("car", "truck")]
        ent = cc[0][0] + conv * cc[1][0]
        ext = cc[0][1] + conv * cc[1][1]
    else:
        ent = step_curve(o.get_link_in_cc(1), T)
        ext = step_curve(o.get_link_out_cc(1), T)
    end = s["assign_frq"] * s["max_interval"]
    t0 = 20
    if T <= end or end < t0 + 20:
        return
    mixed_cls = mc and sum(s["demand"][0][3]) > 0
    rate = (ent[end] - ent[t0]) / (end - t0)
    orate = (ext[end] - ext[t0 + p.stay]) / (end - t0 - p.stay)
    ctx.count("saturated")
    if p.typ == "PQ":
        ctx.expect((p.S if mc else math.floor(p.S * s["flow_scalar"]) / s["flow_scalar"]) * 0.93 <= rate <= (p.S + (2.0 * conv / s["flow_scalar"] if mc else 1e-6)) * 1.02,
                   "a saturated link of capacity %.4g per interval took in %.4g per interval" % (p.S, rate))
        ctx.expect(orate >= 0.9 * rate, "a saturated point queue took in %.4g and let out %.4g per interval" % (rate, orate))
    else:
        lo = 0.75 if not mixed_cls else 0.3
        if p.S * s["flow_scalar"] >= 3:
            ctx.expect(rate >= p.S * lo, "a saturated %s link of capacity %.4g per interval took in only %.4g" % (p.typ, p.S, rate))
            ctx.expect(orate >= p.S * lo * 0.9, "a saturated %s link of capacity %.4g per interval let out only %.4g" % (p.typ, p.S, orate))
            ctx.count("ratio%d" % (10 * int(10 * rate / p.S)))


def blocked(ctx, s, d):
    """A bottleneck downstream: queue fills the link, does not exceed it, and drains at the bottleneck's rate."""
    o, h = hist(ctx, s, d)
    l = s["links"][0]
    p = Phys(s, l)
    if h is not None:
        room(ctx, s, h, l, p)
    e = Phys(s, s["links"][2])
    T = o.get_cur_loading_interval()
    mc = s["kind"] == "mcdta"
    sc = s["flow_scalar"]
    if mc:
        ent, ext = [sum(step_curve(getattr(o, "get_%s_link_%s_cc" % (c, w))(1), T) for c in ("car", "truck")) for w in ("in", "out")]
    else:
        ent, ext = step_curve(o.get_link_in_cc(1), T), step_curve(o.get_link_out_cc(1), T)
    occ = ent - ext
    end = s["assign_frq"] * s["max_interval"]
    ctx.expect((mc and p.typ == "LQ") or occ.max() <= p.jam + max(p.S1, 1.0 / sc) + (2 + 2 * p.cells) / sc + 1e-6, "a blocked %s link holds %.4g vehicles, its storage is %.4g" % (p.typ, occ.max(), p.jam))
    ctx.count("blocked")
    if T > end + 5 and (not mc or sum(s["demand"][0][3]) == 0):
        rate = (ext[end] - ext[end // 2]) / (end - end // 2)
        ctx.expect(rate <= e.S + (1.0 / sc if mc else 0) + 1e-6, "behind a bottleneck of %.4g per interval %.4g got through" % (e.S, rate))
        if e.S * sc >= 2:
            ctx.expect(rate >= 0.5 * e.S, "behind a bottleneck of %.4g per interval only %.4g got through" % (e.S, rate))
        ctx.count("filled", int(occ.max() > 0.7 * p.jam))


def room(ctx, s, h, l, p):
    """What a link takes in is what wants in, up to the room that the vehicles on it leave."""
    mc = s["kind"] == "mcdta"
    sc = float(s["flow_scalar"])
    unit = s["unit_time"]
    if p.cells > 1 or (mc and p.typ == "LQ"):
        return
    conv = l[12] if mc else 1.0
    ncv = s["nodes"][1][2]
    T = h.T
    occ = np.zeros(T + 2)
    want = np.zeros(T + 2)
    got = np.zeros(T + 2)
    for v in h.seg.veh.values():
        w, wn = (1.0, 1.0) if v.cls == 0 else (conv, ncv)
        for k, a, b in h.visits[v.id]:
            if k == l[0]:
                occ[a + 1:(b if b is not None else T) + 1] += w
                got[a] += wn
            elif k == 11:
                want[a + 1:(b if b is not None else T) + 1] += wn
    kj = min(p.rhoj, {"CTM": 400.0 if mc else 300.0}.get(p.typ, 1e9)) * p.lanes
    C = max(p.S, 1.0 / sc)
    kc = C / p.cell
    hold = kj * max(p.len, p.cell)
    if p.typ == "CTM" and not mc:
        hold = kj * max(1.0, p.len / p.cell) * p.cell
        last = max(1.0, p.len / p.cell) * kj / p.lanes
        c1 = min(p.cap, 3500.0)
        wr = c1 / (last - c1 / p.ffs) / p.ffs
    for t in range(1, T):
        n = occ[t] / sc
        if p.typ == "CTM" and not mc:
            if n >= hold:
                S = 0.0
            elif wr <= 1.0:
                S = C if C > n else (hold - n) * wr
            else:
                S = min(C, hold - n)
            edge = abs(n - hold) < 1e-6 or abs(n - C) < 1e-6
        elif p.typ == "LQ":
            c1 = C / unit * 3600.0
            rho = n / p.len
            kc = c1 / p.ffs
            S = C if rho <= kc else (kj - rho) * c1 / (kj - kc) / 3600.0 * unit
            edge = abs(rho - kc) < 1e-6
        else:
            c1 = C / unit * 3600.0
            kc = c1 / p.ffs
            w = c1 / (kj - kc)
            rho = n / max(p.len, p.cell)
            S = max(0.0, min(c1, w * (kj - rho)), 0.25 * w * (kj - rho)) / 3600.0 * unit
            edge = False
        if edge:
            continue
        S *= sc
        if mc:
            ok = got[t] >= min(want[t], S) - 2e-3 and got[t] < min(want[t], S) + max(1.0, ncv) + 1e-6
        elif want[t] <= S + 1e-9:
            ok = got[t] == want[t] or abs(want[t] - S) < 1e-6
        else:
            ok = abs(got[t] - math.floor(S)) < 1e-6 or abs(S - round(S)) < 1e-6 and abs(got[t] - S) <= 1 + 1e-6
        ctx.expect(ok, lambda: "a %s link of one cell with %g vehicles on it (capacity %.4g, storage %.4g per lane) took in %g in interval %d, %g wanted in and it had room for %.4g"
                   % (p.typ, n * sc, C * sc, p.rhoj * p.len, got[t], t, want[t], S))
        ctx.count("room_decisions")
        ctx.count("short_of_room", int(S < min(want[t], C * sc) - 1e-6))


def short(ctx, s, d):
    """A bottleneck downstream of a link of one cell."""
    o, h = hist(ctx, s, d)
    if h is not None:
        room(ctx, s, h, s["links"][0], Phys(s, s["links"][0]))
    ctx.count("short")


def lowcap(ctx, s, d):
    """Links whose capacity per interval is less than a vehicle let one vehicle per interval through."""
    o = ctx.load(s, d)
    T = o.get_cur_loading_interval()
    mc = s["kind"] == "mcdta"
    sc = s["flow_scalar"]
    l = s["links"][0]
    if mc:
        ent, ext = [sum(step_curve(getattr(o, "get_%s_link_%s_cc" % (c, w))(1), T) for c in ("car", "truck")) for w in ("in", "out")]
    else:
        ent, ext = step_curve(o.get_link_in_cc(1), T), step_curve(o.get_link_out_cc(1), T)
    end = s["assign_frq"] * s["max_interval"]
    if T <= end:
        return
    rate = (ent[end] - ent[20]) / (end - 20) * sc
    ctx.count("lowcap")
    ctx.count("lowcap%d" % (10 * int(10 * rate)))
    mixed_cls = mc and sum(s["demand"][0][3]) > 0
    ctx.expect(rate <= (1.0 if not mc else 2.0) + 1e-6, "a %s link that may pass one vehicle per interval took in %.4g per interval" % (l[3], rate))
    ctx.expect(rate >= min(0.9, Phys(s, l).S * sc) * (0.75 if not mixed_cls else 0.2), "a %s link of capacity %.4g per interval took in only %.4g" % (l[3], Phys(s, l).S * sc, rate))
