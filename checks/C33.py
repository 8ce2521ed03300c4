"""Electric vehicles: who charges where, how long it takes, and what is recorded."""
import importlib.util
import math
import os
import random
import re
from collections import Counter

import numpy as np

import wl

RULE = ("one evaluation = 3 random networks with charging stations, electric and other vehicles and delivery tours; every turn and "
        "stop of every vehicle is replayed; distinct = different (network size, link models, scalar, tours, stations, ranges, ratios)")
ASSUMPTIONS = ["well-formed inputs: every leg has a path in the path table, a station is a detour from one junction",
               "an electric vehicle whose range runs low on its way can still reach the station it was assigned",
               "a turn is accepted when it is within 1e-3 s (generalised) of the best",
               "whether an electric vehicle uses public charging is not observed: it has to behave like one that does or one that does not"]
TIMEOUT = 120
HERE = os.path.dirname(os.path.abspath(__file__))
EV = 1
VAR = [dict(), dict(load=15, tight=True), dict(ltypes=["CTM"], load=20), dict(ltypes=["LQ"], load=20), dict(flow_scalar=1, frac=True),
       dict(inner=1, nO=1, nD=1), dict(inner=8, nO=3, nD=3), dict(total_interval=120, load=25), dict(adaptive_ratio=0),
       dict(adaptive_ratio=1), dict(ltypes=["CTM", "LQ"], adaptive_ratio=0.5, load=60, tight=True), dict(load=50, adaptive_ratio=0.3),
       dict(vot=60.0, route_frq=1), dict(vot=5.0, load=30)]


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def gen(tier, seed):
    n = 420 if tier == "quick" else 3000
    base = mod("C32")
    out = []
    for i, s in enumerate(wl.scenarios(seed, n, "dta", "C33", [dict(v, routing="Hybrid") for v in VAR])):
        rng = random.Random("C33 %d %d" % (seed, i))
        s = base.tours(rng, s, dict(VAR[i % len(VAR)], load=min(8, VAR[i % len(VAR)].get("load", 8))))
        s["tolls"] = {}
        if rng.random() < 0.4:
            mod("C08").add_tolls(s, rng)
        out.append(stations(rng, s))
    return wl.chunks(out, 3)


def stations(rng, s):
    u = s["unit_time"]
    inner = [n[0] for n in s["nodes"] if n[1] not in ("DMOND", "DMDND")]
    nid = 500
    lid = 1000
    s["stations"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        a = rng.choice(inner)
        ins, outs = [], []
        for box, k in ((ins, rng.choice([1, 1, 2])), (outs, rng.choice([1, 1, 2]))):
            for _ in range(k):
                ffs = 30
                length = round(ffs * u / 3600.0 * (rng.randint(1, 6) + 0.5), 6)
                ends = (a, nid) if box is ins else (nid, a)
                s["links"].append([lid, ends[0], ends[1], "PQ", length, ffs, 99999, 99999, 4])
                box.append(lid)
                lid += 1
        ct = rng.choice([0, u, 4 * u, 12 * u, 12.6 * u, 30 * u])
        s["stations"].append(dict(id=nid, at=a, slots=rng.choice([1, 1, 2, 3, 6]), ct=ct, n=int(ct / u), price=rng.choice([0, 0.5, 2, 8]), ins=ins, outs=outs))
        nid += 1
    full = rng.choice([2.0, 5.0, 100.0])
    s["ev"] = dict(full=full, road=full * rng.choice([0.0301, 0.0301, 0.0601, 0.1501, 0.3001, 1.0]), home=full * rng.choice([0.05, 0.9]))
    # a range that runs low on the way needs a station that can still be reached
    out = {}
    for l in s["links"]:
        out.setdefault(l[1], set()).add(l[2])
    for x in s["stations"]:
        for n in inner:
            seen, todo = {n}, [n]
            while todo:
                for b in out.get(todo.pop(), ()):
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
            if x["id"] not in seen and s["ev"]["road"] > 0.1 * full:
                full = s["ev"]["full"] = 100.0
                s["ev"]["road"] = 100.0
                s["ev"]["home"] = 90.0
    labels = {str(o): rng.choice([0.0, 0.3, 0.5, 1.0]) for o, _ in s["origins"]}
    s["road_ratio"] = {str(o): rng.choice([0.0, 0.4, 1.0, 1.0]) for o, _ in s["origins"]}
    s["conf"].update(ev_label=EV, num_of_vehicle_labels=2, num_of_charging_station=len(s["stations"]),
                     EV_starting_range_roadside_charging=s["ev"]["road"], EV_starting_range_non_roadside_charging=s["ev"]["home"],
                     EV_full_range=full)
    s["ev_share"] = labels
    s["stat"] = dict(rec_mode_para=rng.choice([1, 1, 3, s["assign_frq"]]))
    f = s["files"]
    od = ["# origins"] + ["%d %d %s %s" % (o, n, s["pickup"][str(o)] or 0, s["road_ratio"][str(o)]) for o, n in s["origins"]]
    f["MNM_input_od"] = "\n".join(od + ["# destinations"] + ["%d %d" % (d, n) for d, n in s["dests"]]) + "\n"
    f["MNM_input_origin_vehicle_label"] = "# origin labels\n" + "".join(
        "%d %s %s\n" % (o, 1 - labels[str(o)], labels[str(o)]) for o, _ in s["origins"])
    f["MNM_input_charging_station"] = "# id slots time wait price\n" + "".join(
        "%d %d %s %s %s\n" % (x["id"], x["slots"], x["ct"], rng.choice([0, 60]), x["price"]) for x in s["stations"])
    s["cand"] = None
    if rng.random() < 0.6:
        c = {}
        for o, _ in s["origins"]:
            for d, _ in s["dests"]:
                if rng.random() < 0.85 or not c:
                    c["%d %d" % (o, d)] = [x["id"] for x in s["stations"] if rng.random() < 0.75]
        s["cand"] = c
        f["MNM_input_candidate_charging_station"] = "# O D stations\n" + "".join(
            " ".join([k] + [str(x) for x in v]) + "\n" for k, v in c.items())
    return s


def run(ctx, case):
    base = mod("C32")
    for i, s in enumerate(case["scens"]):
        one(ctx, base, s, ctx.write(s, "n%d" % i))


def one(ctx, base, s, d):
    ctx.mon.config(3)
    ctx.mp.set_random_state(s["seed"] % (2 ** 31))
    ctx.mon.reset()
    o = ctx.ext.Dta()
    o.run_dnl_electrified_traffic(d, False, False, s["cong"], "")
    ctx.sig("%s t%d s%d ev%g r%s" % (wl.shape(s), len(s["tours"]), len(s["stations"]), s["ev"]["road"] / s["ev"]["full"],
                                     sorted(s["road_ratio"].values())))
    res = base.judge(ctx, s, d, o, plain=lambda v: v.label != EV)
    if res is None:
        return
    seg, h = res
    m = Replay(ctx, base, s, d, seg, h)
    m.stations()
    m.vehicles()


class Replay:
    def __init__(self, ctx, base, s, d, seg, h):
        self.ctx, self.base, self.s, self.d, self.seg, self.h = ctx, base, s, d, seg, h
        self.L = {l[0]: l for l in s["links"]}
        self.st = {x["id"]: x for x in s["stations"]}
        self.into = {l: x["id"] for x in s["stations"] for l in x["ins"]}
        self.memo = {}
        self.dists = mod("C08").dists
        T = h.T
        self.tt = {l: np.zeros(T) for l in self.L}
        for r in seg.link.tolist():
            self.tt[r[2]][r[1]] = r[8] / 1e6
        self.vot = (20.0 if s.get("vot") is None else s["vot"]) / 3600.0
        self.paths = {tuple(p[2]): p for p in s["paths"]}
        self.on = {n: i for i, n in s["origins"]}
        self.dn = {n: i for i, n in s["dests"]}

    def arrive(self, l, t0):
        x = self.L[l]
        return t0 + max(1, int(math.floor(x[4] * 3600.0 / (x[5] * self.s["unit_time"]) + 1e-6)))

    # queues at the stations, from the arrivals
    def stations(self):
        ctx, s, T = self.ctx, self.s, self.h.T
        arr = {x: Counter() for x in self.st}
        dep = {x: Counter() for x in self.st}
        for v in self.seg.veh.values():
            vis = self.h.visits[v.id]
            for (l, a, b), nx in zip(vis, vis[1:] + [None]):
                if l in self.into:
                    x = self.into[l]
                    t = self.arrive(l, a)
                    if t < T:
                        arr[x][t] += 1
                    if nx is not None:
                        dep[x][nx[1]] += 1
                        ctx.expect(nx[1] - t >= self.st[x]["n"], lambda: "vehicle %d came to station %d at %d and left at %d, charging takes %d"
                                   % (v.id, x, t, nx[1], self.st[x]["n"]))
                        ctx.count("charged")
        self.wait = {}
        for x, c in self.st.items():
            q = [[] for _ in range(int(c["slots"] * int(s["flow_scalar"])))]
            w = [0] * (T + 1)
            out = Counter()
            tot = 0
            for t in range(T):
                for _ in range(arr[x][t]):
                    min(q, key=len).append(0)
                for k in q:
                    if k:
                        if k[0] >= c["n"]:
                            k.pop(0)
                            out[t] += 1
                        else:
                            k[0] += 1
                w[t + 1] = min(len(k) for k in q) * c["n"]
            self.wait[x] = w
            bad = [t for t in range(T) if out[t] != dep[x][t]]
            ctx.expect(not bad, lambda: "station %d with %d slots, charging takes %d: %d vehicles left at %d, expected %d"
                       % (x, len(q), c["n"], dep[x][bad[0]], bad[0], out[bad[0]]))
            rec = os.path.join(self.d, "record", "charging_station_%d_" % x)
            got = {}
            for r in open(rec + "wt.txt").read().split("\n")[1:]:
                if r:
                    a, b = r.split(",")
                    got[int(a)] = int(b)
            ctx.expect(got == {t: w[t] * s["unit_time"] for t in range(T + 1)}, lambda: "waiting times of station %d: %s"
                       % (x, [(t, got.get(t), w[t] * s["unit_time"]) for t in range(T + 1) if got.get(t) != w[t] * s["unit_time"]][:3]))
            cc = [tuple(map(float, r)) for r in re.findall(r"([0-9.]+)\s*,\s*([0-9.]+)", open(rec + "cc.txt").read())]
            exp = {0.0: 0.0}
            for t in range(T):
                if dep[x][t]:
                    tot += dep[x][t]
                    exp[t + 1.0] = tot / s["flow_scalar"]
            ctx.expect(len(cc) == len(exp) and all(abs(exp.get(a, -1) - b) < 1e-4 * (1 + b) for a, b in cc),
                       lambda: "curve of station %d: %s, expected %s" % (x, cc[:6], sorted(exp.items())[:6]))
            ctx.count("queued", sum(1 for y in w if y))

    def costs(self, u):
        if u not in self.memo:
            s = self.s
            n = s["stat"]["rec_mode_para"]
            r = (u - 1) // n * n
            c = {}
            for l, x in self.L.items():
                t = x[4] / x[5] * 3600.0 if u == 0 else self.tt[l][0] if r == 0 else self.tt[l][r - n + 1:r + 1].mean()
                c[l] = t * self.vot + s["tolls"].get(str(l), 0.0)
                if l in self.into:
                    k = self.st[self.into[l]]
                    c[l] += 10 * (self.vot * (self.wait[k["id"]][u] + k["n"]) * s["unit_time"] + k["price"])
            self.memo[u] = (c, {})
        return self.memo[u]

    def D(self, u, node):
        c, cache = self.costs(u)
        if node not in cache:
            cache[node] = self.dists(self.s, c, node)
        return cache[node]

    def upd(self, t):
        return t // self.s["route_frq"] * self.s["route_frq"]

    def best(self, t, o, d):
        """The stations that may be assigned to somebody leaving o for d."""
        s = self.s
        if s["cand"] is None:
            cand = [x["id"] for x in s["stations"]]
        else:
            cand = s["cand"].get("%d %d" % (o, d), [])
        u = self.upd(t)
        on = [n for i, n in s["origins"] if i == o][0]
        dn = [n for i, n in s["dests"] if i == d][0]
        c = {}
        for x in cand:
            a, b = self.D(u, x).get(on), self.D(u, dn).get(x)
            if a is not None and b is not None:
                c[x] = a + b
        if not c:
            return set()
        m = min(c.values())
        return {x for x in c if c[x] <= m + 2e-3 * self.vot + 1e-9}

    def turn(self, t, l, node):
        u = self.upd(t)
        c, _ = self.costs(u)
        D = self.D(u, node)
        return c[l] + D.get(self.L[l][2], 1e30) <= D.get(self.L[l][1], 1e30) + 1e-3 * self.vot + 1e-9

    def replay(self, v, legs, flag, ev, tour):
        """None if the vehicle may have done this, else what it may not."""
        s = self.s
        full = s["ev"]["full"]
        rng = s["ev"]["road" if flag else "home"]
        miles = after = 0.0
        for i, (o, d, vs) in enumerate(legs):
            dest = [n for k, n in s["dests"] if k == d][0] if d is not None else None
            low = lambda: flag and (rng - after <= 0.1 * full or (not tour and miles <= 0))
            static = not low() if ev else v.type == 1
            if ev and not low() and (i == 0 or s["adaptive_ratio"] in (0, 1)):
                static = v.type == 1 if i == 0 else s["adaptive_ratio"] == 0
            forced = static and (not ev or i == 0 or s["adaptive_ratio"] == 0)
            if ev and i == 0 and v.type == 1 and low():
                return "leg %d: low on charge, yet on a pre-trip route" % i
            used = [x[0] for x in vs]
            if d is None:
                # the destination of the leg is the one of a tour asked for
                opts = {q[i][1] for q in self.keys(v) if len(q) > i and q[i][0] == o}
            else:
                opts = {d}
            fit = [p for p in self.paths if list(p[:len(used)]) == used and (d is None or len(p) == len(used))]
            errs = []
            done = False
            if static and fit:
                for l in used[:-1]:
                    if self.L[l][3] != "PQ":
                        miles += self.L[l][4]
                        after += self.L[l][4]
                continue
            if forced:
                return "leg %d from %d to %s: links %s are no path of the table" % (i, o, d, used)
            for dd in sorted(opts):
                dest = [n for k, n in s["dests"] if k == dd][0]
                mi, af, rg = miles, after, rng
                sts = set()
                err = None
                for j, (l, t0, t1) in enumerate(vs):
                    a = self.L[l][1]
                    need = flag and (rg - af <= 0.1 * full or (not tour and mi <= 0))
                    if j == 0 and need:
                        sts = self.best(t0, o, dd)
                        self.ctx.count("assigned", 1 if sts else 0)
                    at = self.st.get(a)
                    t = self.arrive(vs[j - 1][0], vs[j - 1][1]) if at else t0
                    if at and a not in sts:
                        err = "leg %d: charges at station %d, %s" % (i, a, "has %s assigned" % sts if sts else "no need to")
                        break
                    if need and sts and not at:
                        ok = {x for x in sts if self.turn(t, l, x)}
                        if not ok:
                            err = "leg %d: link %d at %d does not lead to station %s" % (i, l, t0, sts)
                            break
                        sts = ok
                    elif not self.turn(t, l, dest):
                        err = "leg %d: link %d at %d is no best way to node %d" % (i, l, t0, dest)
                        break
                    if at:
                        rg, af, sts = full, 0.0, set()
                    elif j and self.L[vs[j - 1][0]][3] != "PQ":
                        mi += self.L[vs[j - 1][0]][4]
                        af += self.L[vs[j - 1][0]][4]
                if err is None:
                    miles, after, rng = mi, af, rg
                    done = True
                    break
                errs.append(err)
            if not done:
                return errs[0] if errs else "leg %d from %d: nobody asked for it" % (i, o)
        return None

    def keys(self, v):
        k = v.start // self.s["assign_frq"]
        r = [[(x[0], x[1])] for x in self.s["demand"] if x[2][k] > 0]
        return r + [[tuple(p) for p in t[0]] for t in self.s["tours"] if t[1][k] > 0]

    def vehicles(self):
        ctx, s = self.ctx, self.s
        nev = 0
        sure = {}
        per = {}
        lo = hi = 0
        for v in self.seg.veh.values():
            ev = v.label == EV
            o0 = self.on[v.o]
            b = per.setdefault(o0, [0, 0])
            b[0] += ev
            b[1] += 1
            nev += ev
            legs = self.base.legs_of(s, self.h.visits[v.id], self.on, self.dn)
            if legs is None:
                continue
            r = s["road_ratio"][str(o0)]
            flags = [False] if not ev or r == 0 else [True] if r == 1 else [True, False]
            ods = [(a, b) for a, b, _ in legs]
            ks = [q for q in self.keys(v) if len(q) >= len(ods) and all(x[0] == y[0] and y[1] in (None, x[1]) for x, y in zip(q, ods))]
            if v.gone is not None:
                ks = [q for q in ks if len(q) == len(ods)]
            else:
                ks = [q for q in ks if not legs and q[0] == (self.on[v.o], self.dn[v.d]) or legs]
            kinds = sorted({len(q) > 1 for q in ks})
            res = {}
            for f in flags:
                for tour in kinds:
                    res[(f, tour)] = self.replay(v, legs, f, ev, tour)
            good = {f for (f, tour), e in res.items() if e is None}
            if res:
                ctx.expect(good, lambda: "%svehicle %d, from %d: %s" % ("electric " if ev else "", v.id, v.o, list(res.values())))
            if ev:
                if not good:
                    good = set(flags)
                lo += min(good) if good else 0
                hi += max(good) if good else 0
                if len(flags) == 2 and legs and legs[0][1] is not None and len(kinds) == 1 and s["ev"]["road"] < 0.1 * s["ev"]["full"]:
                    x = sure.setdefault((o0, kinds[0], ods[0][1]), [0, 0, 0])
                    x[0] += True in good
                    x[1] += 1
                    x[2] += len(good) == 1
            ctx.count("electric", ev)
        for o0, (a, n) in per.items():
            p = s["ev_share"][str(o0)]
            ctx.expect(abs(a - p * n) <= 6 * math.sqrt(n * p * (1 - p)) + 1e-9, lambda: "%d of %d vehicles from %d are electric, the share is %g" % (a, n, o0, p))
        text = open(os.path.join(self.d, "record", "statistics_and_emission.txt")).read()
        num = {m[0]: float(m[1]) for m in re.findall(r"Total ([a-z ]+): ([0-9.]+)", text)}
        sc = s["flow_scalar"]
        ctx.expect(num.get("released electrified car") == int(nev / sc), lambda: "statistics: %s electric vehicles, %d were released" % (num.get("released electrified car"), nev))
        a = num.get("home charged electrified car", -1)
        ctx.expect(int((nev - hi) / sc) <= a <= int((nev - lo) / sc), lambda: "statistics: %g charge at home, between %g and %g do" % (a, (nev - hi) / sc, (nev - lo) / sc))
        ctx.expect(num.get("roadside charged electrified car") == num.get("released electrified car") - a, "statistics: roadside charging %s" % num.get("roadside charged electrified car"))
        for (o0, tour, d), (a, n, known) in sure.items():
            if n == known and s["total_interval"] <= 0:
                p = s["road_ratio"][str(o0)]
                ctx.count("settled", n)
                ctx.expect(abs(a - p * n) <= 6 * math.sqrt(n * p * (1 - p)) + 1e-9,
                           lambda: "%d of %d electric vehicles from %d to %d charge on the road, the ratio is %g" % (a, n, o0, d, p))
