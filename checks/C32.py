"""Delivery tours: vehicles that visit several origin-destination pairs one after the other."""
import math
import os
import random
import re
from collections import Counter

import numpy as np

import oracle
import wl
from sim import step_curve

RULE = ("one evaluation = 4 random networks with delivery tours loaded with the monitor attached; "
        "distinct = different (network size, link models, scalar, tours, legs, horizon, roomy or not)")
ASSUMPTIONS = ["well-formed inputs: every leg has a path in the path table",
               "a pick-up time that is no multiple of the interval is rounded up or down",
               "vehicles that wait for their pick-up do so on the first link of the leg (a point queue)"]
TIMEOUT = 90
VAR = [dict(), dict(ltypes=["PQ"], load=3, roomy=1), dict(tight=True, load=40), dict(ltypes=["CTM"], tight=True, load=30),
       dict(ltypes=["LQ"], load=25), dict(flow_scalar=1, frac=True), dict(inner=1, nO=1, nD=1), dict(nO=1, nD=3),
       dict(nO=3, nD=1), dict(total_interval=90, load=30), dict(ltypes=["PQ"], load=2, roomy=1, nO=3, nD=3),
       dict(ltypes=["PQ"], load=6, roomy=2, nO=2, flow_scalar=1), dict(ltypes=["PQ"], load=3, roomy=2, flow_scalar=2),
       dict(ltypes=["PQ"], roomy=3, nO=2, nD=1, flow_scalar=1, assign_frq=6, max_interval=12),
       dict(adaptive_ratio=0, load=40, frac=False), dict(adaptive_ratio=1), dict(junctions=["GRJ", "FWJ"], load=25)]


def gen(tier, seed):
    n = 800 if tier == "quick" else 4200
    ss = [tours(random.Random("C32 %d %d" % (seed, i)), s, VAR[i % len(VAR)])
          for i, s in enumerate(wl.scenarios(seed, n, "dta", "C32", [dict(v, routing="Hybrid") for v in VAR]))]
    return wl.chunks(ss, 4)


def tours(rng, s, var):
    pairs = [(d[0], d[1]) for d in s["demand"]]
    big = var.get("load", 10)
    ts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        legs = [rng.choice(pairs) for _ in range(rng.choice([2, 2, 3, 3, 4, 5, 7]))]
        vec = [round(rng.uniform(0, big), 3) if rng.random() < 0.5 else float(rng.randint(0, big))
               for _ in range(s["max_interval"])]
        if rng.random() < 0.2:
            vec[rng.randrange(len(vec))] = 0.0
        ts.append([legs, vec])
    if var.get("roomy") == 3:
        # a trickle: more vehicles wait for their pick-up than the link admits per interval
        for x in s["demand"]:
            x[2] = [1.0] * s["max_interval"]
        ts = [[[p, q], [1.0] * s["max_interval"]] for p in pairs[:1] for q in pairs[-1:]]
    s["tours"] = ts
    u = s["unit_time"]
    s["pickup"] = {str(o): rng.choice([None, 0, u, 3 * u, 10 * u, 40 * u, 2.5 * u, 0.4 * u, 17]) for o, _ in s["origins"]}
    s["roomy"] = var.get("roomy", 0)
    if s["roomy"] == 3:
        s["pickup"] = {str(o): 40 * u for o, _ in s["origins"]}
    s["narrow"] = {}
    if s["roomy"]:
        for l in s["links"]:
            l[6], l[7], l[8] = 60000, 99999, 4
            if s["roomy"] > 1 and l[1] in {n for _, n in s["origins"]}:
                k = rng.randint(2, 5)       # vehicles per interval
                s["narrow"][str(l[0])] = k
                l[4], l[6], l[8] = 1.0, k * 3600.0 / u / s["flow_scalar"], 1
    s["conf"] = dict(multi_OD_seq=len(ts))
    od = ["# origins"] + ["%d %d%s" % (o, n, "" if s["pickup"][str(o)] is None else " %s" % s["pickup"][str(o)])
                          for o, n in s["origins"]]
    od += ["# destinations"] + ["%d %d" % (d, n) for d, n in s["dests"]]
    s["files"] = {"MNM_input_od": "\n".join(od) + "\n",
                  "MNM_input_multi_od_seq": "# O D O D\n" + "".join(
                      " ".join("%d %d" % p for p in t[0]) + "\n" for t in ts),
                  "MNM_input_multi_od_seq_demand": "# demand\n" + "".join(
                      " ".join(repr(x) for x in t[1]) + "\n" for t in ts)}
    s["cong"] = rng.choice([0, 0, 1, 6, 12, 25])
    return s


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def legs_of(s, vis, on, dn):
    """Split the links a vehicle used into legs: [(origin, destination or None, [visits])]."""
    L = {l[0]: l for l in s["links"]}
    out = []
    for v in vis:
        l = L[v[0]]
        if l[1] in on:
            out.append([on[l[1]], None, []])
        elif not out or out[-1][1] is not None or L[out[-1][2][-1][0]][2] != l[1]:
            return None
        out[-1][2].append(v)
        if l[2] in dn:
            out[-1][1] = dn[l[2]]
    return out


def one(ctx, s, d):
    ctx.mon.config(1)
    ctx.mp.set_random_state(s["seed"] % (2 ** 31))
    ctx.mon.reset()
    o = ctx.ext.Dta()
    o.run_dnl_delivery_traffic(d, False, False, s["cong"])
    ctx.sig("%s t%d legs%d h%d roomy%d" % (wl.shape(s), len(s["tours"]), sum(len(t[0]) for t in s["tours"]),
                                           s["total_interval"] > 0, s["roomy"]))
    judge(ctx, s, d, o)


def judge(ctx, s, d, o, plain=lambda v: True):
    """*plain*: vehicles whose routing type and routes are judged here."""
    sc = s["flow_scalar"]
    on = {n: i for i, n in s["origins"]}
    dn = {n: i for i, n in s["dests"]}
    L = {l[0]: l for l in s["links"]}
    segs = ctx.mon.segments()
    if not ctx.expect(len(segs) == 1, "%d loadings were seen instead of one" % len(segs)):
        return None
    seg = segs[0]
    h = oracle.History(s, seg)
    oracle.population(ctx, h)
    # what is asked for: (assign interval, legs) -> [low, high]
    want = {}
    first = {}
    for legs, vec in [([(x[0], x[1])], x[2]) for x in s["demand"]] + [(t[0], t[1]) for t in s["tours"]]:
        for k, x in enumerate(vec):
            y = x * sc
            lo, hi = math.floor(y + 1e-9), math.ceil(y - 1e-9)
            for tab, key in ((want, (k, tuple(map(tuple, legs)))), (first, (k, tuple(legs[0])))):
                b = tab.setdefault(key, [0, 0])
                b[0] += lo
                b[1] += hi
    keys = {}
    for (k, legs), b in want.items():
        if b[1] > 0:
            keys.setdefault(k, []).append(legs)
    got, got1 = Counter(), Counter()
    drained = s["total_interval"] <= 0
    paths = {}
    for p in s["paths"]:
        paths.setdefault((p[0][0], p[0][-1]), []).append(p)
    tot = 0
    share = {}
    base = {}
    waits = []
    enters = []
    for v in seg.veh.values():
        vis = h.visits[v.id]
        k = v.start // s["assign_frq"]
        ctx.expect(v.start % s["assign_frq"] == 0 and k < s["max_interval"], lambda: "vehicle %d was released at interval %d" % (v.id, v.start))
        got1[(k, (on.get(v.o), dn.get(v.d)))] += 1
        tot += (v.gone if v.gone is not None else h.T) - v.start
        legs = legs_of(s, vis, on, dn)
        if not ctx.expect(legs is not None, lambda: "vehicle %d jumps within a leg: links %s" % (v.id, [x[0] for x in vis])):
            continue
        ods = tuple((a, b) for a, b, _ in legs)
        ctx.expect(all(b is not None for _, b in ods[:-1]), lambda: "vehicle %d began a leg before the last one was done: %s" % (v.id, ods))
        if v.gone is not None:
            if not ctx.expect(ods in keys.get(k, []), lambda: "vehicle %d of interval %d finished after the legs %s, asked for are %s"
                              % (v.id, k, ods, [q for q in keys.get(k, []) if q[0] == ods[:1][0]] if ods else "")):
                continue
            got[(k, ods)] += 1
        else:
            ctx.expect(any(len(q) >= len(ods) and all(a[0] == b[0] and b[1] in (None, a[1]) for a, b in zip(q, ods))
                           for q in keys.get(k, [])), lambda: "vehicle %d of interval %d is on the legs %s" % (v.id, k, ods))
        ctx.count("legs", len(legs))
        # the waits at the later origins
        for i, (a, _, vs) in enumerate(legs):
            l, t0, t1 = vs[0]
            x = L[l][4] * 3600.0 / (L[l][5] * s["unit_time"])
            ff = max(1, math.floor(x + 1e-9))
            w = (s["pickup"][str(a)] or 0) / s["unit_time"] if i else 0
            end = h.T if t1 is None else t1
            enters.append((l, t0, w))
            if t1 is not None:
                if L[l][2] in dn and i + 1 < len(legs):
                    continue            # stays on record until the next leg
                ctx.expect(end - t0 >= ff + math.floor(w + 1e-9),
                           lambda: "vehicle %d, leg %d from %d: %d intervals on link %d, pick-up %g and travel %d need more" % (v.id, i, a, end - t0, l, w, ff))
                if i:
                    waits.append((v.id, i, a, l, end - t0, w))
                else:
                    base.setdefault(l, Counter())[end - t0] += 1
        # the routes of pre-trip legs
        if v.type == 1 and plain(v):
            cols = {}
            for (t, cur, nxt, p), q in zip(v.moves, [None] + v.moves[:-1]):
                if p >= 0 and (q is None or q[3] != p):
                    cols.setdefault(len(cols), (t, p))
            for i, (a, b, vs) in enumerate(legs):
                if not ctx.expect(i in cols, lambda: "vehicle %d has no route for leg %d" % (v.id, i)):
                    break
                t, p = cols[i]
                pl = seg.paths[p]
                used = [x[0] for x in vs]
                ctx.expect(used == pl if b is not None else used == pl[:len(used)],
                           lambda: "vehicle %d, leg %d: route %s, links used %s" % (v.id, i, pl, used))
                c = min(t // s["fixed_route_frq"], s["max_interval"] - 1)
                ps = paths[(L[pl[0]][1], L[pl[-1]][2])]
                sm = sum(q[1][c] for q in ps)
                mine = [q for q in ps if q[2] == pl]
                if not ctx.expect(len(mine) == 1, lambda: "vehicle %d, leg %d: path %s is not in the table" % (v.id, i, pl)):
                    continue
                ctx.expect(mine[0][1][c] > 0, lambda: "vehicle %d, leg %d: path %s has share 0 in column %d" % (v.id, i, pl, c))
                for q in ps:
                    z = share.setdefault((i > 0, c, tuple(q[2])), [0, 0.0, 0.0])
                    f = q[1][c] / sm
                    z[0] += q is mine[0]
                    z[1] += f
                    z[2] += f * (1 - f)
                    ctx.count("route_choices")
        if s["adaptive_ratio"] in (0, 1) and plain(v):
            ctx.expect(v.type == (0 if s["adaptive_ratio"] else 1), lambda: "vehicle %d has routing type %d, the ratio is %g" % (v.id, v.type, s["adaptive_ratio"]))
    for (late, c, p), (n, m, var) in share.items():
        ctx.expect(abs(n - m) <= 6.5 * math.sqrt(var) + 1.5, lambda: "path %s, column %d, %s legs: chosen %d times, the shares say %.1f"
                   % (p, c, "later" if late else "first", n, m))
    N = len(seg.veh)
    ty = [v.type for v in seg.veh.values() if plain(v)]
    r = s["adaptive_ratio"]
    ctx.expect(abs(ty.count(0) - r * len(ty)) <= 6 * math.sqrt(len(ty) * r * (1 - r)) + 1e-9,
               "%d of %d vehicles choose en route, the ratio is %g" % (ty.count(0), len(ty), r))
    done = min(h.T, s["max_interval"] * s["assign_frq"])
    for key, b in first.items():
        if key[0] * s["assign_frq"] < done:
            ctx.expect(b[0] <= got1[key] <= b[1], lambda: "%d vehicles set out from %d to %d in interval %d, %s were asked for" % (got1[key], key[1][0], key[1][1], key[0], b))
    for key in got1:
        ctx.expect(key in first, lambda: "vehicles nobody asked for: %s" % (key,))
    if drained:
        ctx.expect(all(v.gone is not None for v in seg.veh.values()), "the loading ended with vehicles under way")
        for key, b in want.items():
            ctx.expect(b[0] <= got[key] <= b[1], lambda: "%d vehicles of interval %d did the legs %s, %s were asked for" % (got[key], key[0], key[1], b))
    if s["roomy"]:
        for l, k in s["narrow"].items():
            # a narrow link lets k vehicles in per interval: fewer are ready at all times?
            ready = Counter()
            for l1, t, w in enters:
                if str(l1) == l:
                    ready[t + w] += 1
            if any(w != int(w) for l1, t, w in enters if str(l1) == l) or max(ready.values(), default=0) >= k:
                base.pop(int(l), None)
            elif int(l) in base:
                ctx.count("narrow_links")
        for l, c in base.items():
            ctx.expect(len(c) == 1, lambda: "link %d, free of traffic, took %s intervals" % (l, dict(c)))
        seen = {}
        for vid, i, a, l, dur, w in waits:
            if l in base:
                x = dur - min(base[l])
                seen.setdefault(a, set()).add(x)
                ctx.expect(math.floor(w + 1e-9) <= x <= math.ceil(w - 1e-9), lambda: "vehicle %d, leg %d: held up %d intervals at origin %d, pick-up takes %g" % (vid, i, x, a, w))
                ctx.count("exact_waits")
        for a, x in seen.items():
            ctx.expect(len(x) == 1, lambda: "pick-up at origin %d took %s intervals" % (a, sorted(x)))
    # records
    for l in L:
        ci, co = step_curve(o.get_link_in_cc(l), h.T), step_curve(o.get_link_out_cc(l), h.T)
        n_in = np.zeros(h.T + 1)
        n_out = np.zeros(h.T + 1)
        for v in seg.veh.values():
            for ll, a, b in h.visits[v.id]:
                if ll != l:
                    continue
                n_in[a + 1:] += 1
                if b is not None:
                    n_out[b + 1:] += 1
        if L[l][2] in dn:
            # vehicles between two legs count as on this link until they enter the next one
            ctx.expect(np.all(co * sc >= n_out - 1e-6) and np.all(co <= ci + 1e-6), lambda: "link %d: outgoing curve %s" % (l, co))
            if drained:
                ctx.expect(abs(co[-1] * sc - n_out[-1]) < 1e-6, lambda: "link %d: %g left by the curve, %g seen" % (l, co[-1] * sc, n_out[-1]))
        else:
            ctx.expect(np.allclose(co * sc, n_out, atol=1e-6), lambda: "outgoing curve of link %d differs from the vehicles seen" % l)
        ctx.expect(np.allclose(ci * sc, n_in, atol=1e-6), lambda: "incoming curve of link %d differs from the vehicles seen" % l)
    text = open(os.path.join(d, "record", "statistics_and_emission.txt")).read()
    num = {m[0]: float(m[1]) for m in re.findall(r"Total ([a-z ]+): ([0-9.]+)", text)}
    fin = sum(v.gone is not None for v in seg.veh.values())
    lo = hi = 0
    for legs, vec in s["tours"]:
        for k, x in enumerate(vec):
            if k * s["assign_frq"] < done:
                lo += math.floor(x * sc + 1e-9)
                hi += math.ceil(x * sc - 1e-9)
    for name, val in (("released car", int(N / sc)), ("finished car", int(fin / sc)), ("enroute car", int((N - fin) / sc))):
        ctx.expect(num.get(name) == val, lambda: "statistics: %s %s, expected %d" % (name, num.get(name), val))
    ctx.expect(int(lo / sc) <= num.get("released delivery car", -1) <= int(hi / sc), lambda: "statistics: %s delivery vehicles, asked for are %g to %g"
               % (num.get("released delivery car"), lo / sc, hi / sc))
    hrs = tot * s["unit_time"] / 3600.0 / sc
    ctx.expect(abs(num.get("car tt", -1) - hrs) < 2e-6 + 1e-9 * hrs, lambda: "statistics: %s hours, expected %.6f" % (num.get("car tt"), hrs))
    if s["cong"]:
        f = s["cong"]
        rows = open(os.path.join(d, "record", "driving_link_cong_raw.txt")).read().split("\n")[1:]
        seen = set()
        for r in rows:
            w = r.split()
            if not w:
                continue
            t, l = int(w[0]), int(w[1])
            seen.add((t, l))
            ci, co = step_curve(o.get_link_in_cc(l), h.T), step_curve(o.get_link_out_cc(l), h.T)
            ctx.expect(abs(float(w[2]) - (ci[t + f] - ci[t])) < 1e-5 and abs(float(w[3]) - (co[t + f] - co[t])) < 1e-5,
                       lambda: "congestion file at %d link %d: flows %s %s, the curves say %g %g" % (t, l, w[2], w[3], ci[t + f] - ci[t], co[t + f] - co[t]))
        exp = {(t, l) for t in range(0, h.T - f + 1) for l in L if t % f == 0}
        ctx.expect(exp <= seen, lambda: "congestion file: no line for (interval, link) %s" % (sorted(exp - seen)[:3],))
    ctx.count("vehicles", N)
    ctx.count("tours_done", sum(n for (k, q), n in got.items() if len(q) > 1))
    return seg, h
