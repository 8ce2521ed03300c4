"""Bus service: capacity, dwelling, boarding and alighting, walking and waiting times."""
import importlib.util
import math
import os

import numpy as np

import mmor

RULE = ("one evaluation = 2 random multimodal networks; every stay of every bus at every stop is replayed from the "
        "observed movements: who was waiting, who wanted off, how long the doors were open; distinct = different "
        "(network size, lines, capacity, dwell, lost time, boarding and alighting times, scalar)")
ASSUMPTIONS = ["well-formed inputs", "with a flow scalar of n every n-th bus stands for the n that drive"]
TIMEOUT = 120
HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


VAR = [dict(flow_scalar=1, pload=30), dict(flow_scalar=1, pload=60, bus_capacity=2, bus_levels=[1, 2, 3]), dict(explicit_bus=0, pload=20),
       dict(flow_scalar=2, pload=40, bus_levels=[1, 2]), dict(flow_scalar=1, pload=25, dwell=0, lost=0), dict(pload=20),
       dict(flow_scalar=1, pload=40, lost=15, dwell=5, board=5, alight=5), dict(explicit_bus=0, pload=60, board=5, alight=5, hist=7),
       dict(flow_scalar=1, pload=30, adaptive_ratio_passenger=1), dict(flow_scalar=3, pload=40, bus_levels=[1, 2], bus_capacity=3, two_stops=1),
       dict(pickup=[30, 60, 17], pload=12, ltypes=["PQ"]), dict(flow_scalar=1, load=60, pload=30, ltypes=["CTM"], bus_levels=[1, 2, 3])]


def gen(tier, seed):
    n = 480 if tier == "quick" else 4000
    ss = mod("C23").scenarios(seed, n, "C24", VAR)
    return [dict(scens=ss[i:i + 2]) for i in range(0, len(ss), 2)]


def run(ctx, case):
    base = mod("C23")
    for i, s in enumerate(case["scens"]):
        base.load(ctx, s, ctx.write(s, "n%d" % i))
        m = s["mm"]
        ctx.sig((len(s["links"]), len(m["buses"]), m["capacity"], m["dwell"], m["lost"], m["board"], m["alight"], s["flow_scalar"], m["explicit"]))
        if not ctx.mon.mm:
            continue
        for seg in ctx.mon.segments():
            h = mmor.MM(s, seg)
            walking(ctx, s, seg, h)
            pickup(ctx, s, seg, h)
            if m["explicit"]:
                service(ctx, s, seg, h)
            else:
                scheduled(ctx, s, seg, h)


def half_up(x):
    return int(math.floor(x + 0.5))


def rules(s):
    m, u = s["mm"], s["unit_time"]
    f = int(s["flow_scalar"])
    return dict(F=f, cap=int(m["capacity"]) * f, dwell=half_up(m["dwell"] / u), lost=half_up(m["lost"] / u),
                on=half_up(u / m["board"]) * f, off=half_up(u / m["alight"]) * f)


def walking(ctx, s, seg, h):
    for p in seg.pax.values():
        for i, (l, a, b) in enumerate(h.walks[p.id]):
            q = h.tl[l]
            if q["kind"] == "normal":
                need = max(1, int(q["time"] / s["unit_time"] + 1e-9)) + (1 if p.pnr and i == 0 else 0)
            elif q["kind"] == "alighting":
                need = 1
            else:
                continue
            if b is None:
                ctx.expect(a + need >= h.T, lambda: "passenger %d entered link %d (%s, %s s) at %d and is still there at %d" % (p.id, l, q["kind"], q["time"], a, h.T))
            else:
                ctx.expect(b - a == need, lambda: "passenger %d took %d intervals for link %d (%s, %s s), %d due" % (p.id, b - a, l, q["kind"], q["time"], need))
            ctx.count("walks")


def pickup(ctx, s, seg, h):
    wait = {r[1]: r[2] for r in s["origins"]}
    for v in seg.veh.values():
        if not v.pnr or not h.visits[v.id]:
            continue
        l, a, b = h.visits[v.id][0]
        if b is None:
            continue
        w = int(wait[v.o] / s["unit_time"] + 1e-9)
        ctx.expect(b - a >= w + 1, lambda: "park-and-ride car %d left after %d intervals, being picked up takes %d" % (v.id, b - a, w))
        ctx.count("pickups")


def boardings(h, seg):
    """-> waiting[link][t], on[(bus or line, stop)][t], off[...][t], want[(bus, stop)][t]"""
    n = h.T + 2
    waiting, on, off, want = {}, {}, {}, {}

    def arr(d, k):
        if k not in d:
            d[k] = np.zeros(n, dtype=int)
        return d[k]

    for p in seg.pax.values():
        mv = p.moves
        last = -1
        for i, (t, cur, nx, path, bus, places, where) in enumerate(mv):
            end = mv[i + 1][0] if i + 1 < len(mv) else (p.gone if p.gone is not None else n)
            q = h.tl.get(cur)
            if q is None:
                continue
            if q["kind"] == "boarding":
                arr(waiting, cur)[t:end] += 1
            if bus >= 0:
                if bus != last:
                    arr(on, (bus, q["a"]))[t] += 1
                w = h.tl.get(nx)
                if w is not None and w["kind"] == "alighting":
                    arr(want, (bus, w["a"]))[t:end] += 1
            if bus != last and last >= 0:
                arr(off, (last, q["a"] if q["kind"] == "alighting" else -1))[t] += 1
            last = bus
        if p.gone is not None and last >= 0:
            arr(off, (last, -2))[p.gone] += 1
    return waiting, on, off, want


def service(ctx, s, seg, h):
    r = rules(s)
    n = h.T + 2
    waiting, on, off, want = boardings(h, seg)
    zero = np.zeros(n, dtype=int)
    left = {}           # stop -> [(t, stopped, aboard)]
    enter = {}          # (line, link) -> [t]
    for (b, st), x in list(on.items()) + list(off.items()):
        v = seg.veh.get(b)
        ctx.expect(v is not None and v.bus in h.routes and st in h.routes[v.bus]["stops"], lambda: "somebody got on or off bus %s at %s, which is not a stop of its line" % (b, st))
    for v in seg.veh.values():
        if mmor.kind(v) != "bus":
            continue
        line = h.routes[v.bus]
        order = {x: i for i, x in enumerate(line["stops"])}
        ss = {t: x for t, *x in v.stops}
        stop, stopped, aboard = -1, 0, 0
        reached = -1
        where = {}
        for l, a, b in h.visits[v.id]:
            enter.setdefault((v.bus, l), []).append(a)
            for t in range(a, b if b is not None else h.T + 1):
                where[t] = l
        for t in range(v.seen, (v.gone if v.gone is not None else h.T + 1)):
            ps, pk, pa = stop, stopped, aboard
            if t in ss:
                stop, stopped, aboard, at = ss[t]
                ctx.expect(at <= 1, lambda: "bus %d is at %d stops at %d" % (v.id, at, t))
            ctx.expect(aboard <= r["cap"], lambda: "bus %d carries %d at %d, capacity %d" % (v.id, aboard, t, r["cap"]))
            gon = sum(int(on.get((v.id, x), zero)[t]) for x in order)
            goff = sum(int(off.get((v.id, x), zero)[t]) for x in order)
            if stop != ps and stop != -1:
                if not ctx.expect(stop in order and order[stop] > reached, lambda: "bus %d of line %d came to stop %d at %d after having been at the one numbered %d of %s"
                                  % (v.id, v.bus, stop, t, reached, line["stops"])):
                    return
                skipped = order[stop] - reached - 1
                ctx.expect(not skipped or r["F"] > 1 or r["dwell"] == 0 or max(pa, aboard) >= r["cap"],
                           lambda: "bus %d of line %d passed %d stops before %d at %d without stopping" % (v.id, v.bus, skipped, stop, t))
                reached = order[stop]
                ctx.expect(h.phys[h.virt[stop][1]][1] == where.get(t), lambda: "bus %d is at stop %d at %d but drives on link %s" % (v.id, stop, t, where.get(t)))
            k = pk if stop == ps else 0
            if stop != -1 and stopped != k:
                # the doors were attended to in this interval
                ctx.expect(stopped == k + 1, lambda: "bus %d at stop %d: %d intervals after %d" % (v.id, stop, stopped, k))
                o = int(on.get((v.id, stop), zero)[t])
                f = int(off.get((v.id, stop), zero)[t])
                wb = f + int(want.get((v.id, stop), zero)[t])
                link = h.board.get(stop)
                qb = o + int(waiting.get(link, zero)[t])
                prev = aboard - o + f
                room = r["cap"] - prev + wb
                some = wb > 0 or (qb > 0 and room > 0)
                d = r["dwell"]
                if 0 < d < r["lost"] and some:
                    d = r["lost"]
                if wb == 0 and room == 0 and k == 0:
                    d = 0
                ctx.expect(k < d or some, lambda: "bus %d stays at stop %d at %d after %d intervals: nobody wants off, %d waiting, room for %d, dwell %d"
                           % (v.id, stop, t, k, qb, room, r["dwell"]))
                if stopped > r["lost"]:
                    ef = min(wb, r["off"])
                    eo = max(0, min(qb, r["on"], r["cap"] - prev + ef))
                    ctx.expect((o, f) == (eo, ef), lambda: "bus %d at stop %d at %d: %d got on and %d off; %d were waiting, %d wanted off, %d aboard before, capacity %d, at most %d on and %d off per interval"
                               % (v.id, stop, t, o, f, qb, wb, prev, r["cap"], r["on"], r["off"]))
                    ctx.count("boarded", o)
                    ctx.count("alighted", f)
                else:
                    ctx.expect(o == 0 and f == 0, lambda: "bus %d at stop %d at %d: %d got on and %d off before the doors were open" % (v.id, stop, t, o, f))
                ctx.count("door_intervals")
                ctx.expect(gon == o and goff == f, lambda: "bus %d at stop %d at %d: people got on or off elsewhere" % (v.id, stop, t))
            else:
                ctx.expect(gon == 0 and goff == 0, lambda: "bus %d at %d, not standing at a stop: %d got on, %d off" % (v.id, t, gon, goff))
            if ps != -1 and stop != ps:
                left.setdefault(ps, []).append((t, pk, aboard))
                if pk > 0 or r["F"] == 1:
                    w = int(waiting.get(h.board.get(ps), zero)[t])
                    ctx.expect(w == 0 or aboard >= r["cap"], lambda: "bus %d left stop %d at %d with %d waiting and %d of %d aboard" % (v.id, ps, t, w, aboard, r["cap"]))
                    ctx.expect(pk >= r["dwell"] or (pk == 0 and aboard >= r["cap"]),
                               lambda: "bus %d left stop %d at %d after %d intervals, at least %d due" % (v.id, ps, t, pk, r["dwell"]))
                ctx.count("departures")
    if r["F"] > 1 and r["dwell"] > 0:
        for st, e in left.items():
            if any(k == 0 and ab >= r["cap"] for t, k, ab in e):
                continue
            e.sort()
            ns = nn = 0
            for i, (t, k, ab) in enumerate(e):
                nn += 1
                ns += k > 0
                if i + 1 < len(e) and e[i + 1][0] == t:
                    continue
                # one that drives through within an interval is not seen at the stop, but on the link
                came = sum(1 for x in enter.get((h.virt[st][2], h.phys[h.virt[st][1]][1]), []) if x <= t)
                ctx.expect(ns * r["F"] <= came and nn - ns <= (ns + 1) * (r["F"] - 1),
                           lambda: "stop %d: %d of %d buses stopped by %d, with a scalar of %d" % (st, ns, nn, t, r["F"]))
    # first come, first served
    byl = {}
    for p in seg.pax.values():
        for l, a, b in h.walks[p.id]:
            if h.tl[l]["kind"] == "boarding":
                byl.setdefault(l, []).append((a, n if b is None else b, p.id))
    fifo(ctx, byl)


def fifo(ctx, byl):
    for l, e in byl.items():
        e.sort()
        worst = None
        i = 0
        while i < len(e):
            j = i
            while j < len(e) and e[j][0] == e[i][0]:
                if worst is not None:
                    ctx.expect(worst[0] <= e[j][1], lambda: "passenger %d, at the stop since %d, boarded at %d; %d, there since %d, only at %d"
                               % (e[j][2], e[j][0], e[j][1], worst[1], worst[2], worst[0]))
                    ctx.count("queue_pairs")
                j += 1
            m = max(e[i:j], key=lambda x: x[1])
            if worst is None or m[1] > worst[0]:
                worst = (m[1], m[2], m[0])
            i = j


def scheduled(ctx, s, seg, h):
    """No buses on the road: people wait as long as the timetable says and ride for the driving time."""
    r = rules(s)
    hist = s["mm"]["hist"]
    n = h.T + 2
    on, off, byl = {}, {}, {}
    links = {l[0]: l for l in s["links"]}
    for p in seg.pax.values():
        ws = h.walks[p.id]
        for l, a, b in ws:
            q = h.tl[l]
            if q["kind"] == "boarding":
                byl.setdefault(l, []).append((a, n if b is None else b, p.id))
                if b is not None:
                    on.setdefault(l, {}).setdefault(b, 0)
                    on[l][b] += 1
            elif q["kind"] == "alighting":
                off.setdefault(l, {}).setdefault(a, 0)
                off[l][a] += 1
            elif q["kind"] == "bus" and b is not None:
                fft = 0.0
                va, vb = h.phys[h.virt[q["a"]][1]], h.phys[h.virt[q["b"]][1]]
                for x in q["over"]:
                    full = links[x][4] / links[x][5] * 3600
                    part = 1.0
                    if len(q["over"]) == 1:
                        part = (vb[2] - va[2]) / links[x][4]
                    elif x == va[1]:
                        part = 1 - va[2] / links[x][4]
                    elif x == vb[1]:
                        part = vb[2] / links[x][4]
                    fft += part * full
                need = max(1, int(fft / s["unit_time"] - 1e-3))
                ctx.expect(b - a >= need, lambda: "passenger %d rode link %d in %d intervals, %.3f at free flow" % (p.id, l, b - a, fft / s["unit_time"]))
                ctx.count("rides")
    for l, e in on.items():
        for t, c in e.items():
            ctx.expect(c <= r["on"], lambda: "%d boarded over link %d at %d, at most %d an interval" % (c, l, t, r["on"]))
    for l, e in off.items():
        for t, c in e.items():
            ctx.expect(c <= r["off"], lambda: "%d alighted over link %d at %d, at most %d an interval" % (c, l, t, r["off"]))
    for l, e in byl.items():
        for a, b, pid in e:
            ctx.expect(b == n or b - a >= hist, lambda: "passenger %d boarded over link %d after %d intervals, the wait is %d" % (pid, l, b - a, hist))
            for t in range(a + hist, min(b, h.T)):
                ctx.expect(on.get(l, {}).get(t, 0) == r["on"], lambda: "passenger %d waits at link %d at %d (since %d, the wait is %d) while %d boarded of at most %d"
                           % (pid, l, t, a, hist, on.get(l, {}).get(t, 0), r["on"]))
            ctx.count("waits")
