"""Demand is released as the input says."""
import math
import random

import numpy as np
import wl

RULE = ("one evaluation = 4 scenarios; every released vehicle is attributed to (origin, destination, class, "
        "departure interval) and compared with the demand file; distinct = different scenario shapes")
ASSUMPTIONS = ["fractional demand is rounded at random: each count must be the floor or the ceiling, and the pooled "
               "total must lie within 6 standard deviations of the demand",
               "shares of adaptive vehicles and of labels are judged on pooled counts at 6 standard deviations"]
TIMEOUT = 60


def gen(tier, seed):
    n = 600 if tier == "quick" else 2000
    out = []
    for kind, var in (("dta", wl.SINGLE), ("mcdta", wl.MULTI)):
        var = var + [dict(load=0.9, frac=True, flow_scalar=1), dict(load=60, frac=True, routing="Hybrid", adaptive_ratio=0.35),
                     dict(load=60, routing="Hybrid", adaptive_ratio=0.95), dict(load=60, routing="Hybrid", adaptive_ratio=0.04)]
        if kind == "mcdta":
            var.append(dict(load=60, routing="Biclass_Hybrid", adaptive_ratio_car=0.8, adaptive_ratio_truck=0.25))
            var.append(dict(load=60, routing="Biclass_Hybrid", adaptive_ratio_car=0.04, adaptive_ratio_truck=0.95))
        ss = wl.scenarios(seed, n, kind, "C03", var)
        for i, s in enumerate(ss):
            rng = random.Random("C03t/%s/%d/%d" % (kind, seed, i))
            if s["routing"] in ("Hybrid", "Biclass_Hybrid") and rng.random() < 0.6:
                td_ratio(s, rng)
            if rng.random() < 0.5:
                labels(s, rng)
            if rng.random() < 0.15 and s["max_interval"] > 1:
                s["conf"] = dict(s.get("conf", {}), start_assign_interval=1 if kind == "dta" else rng.randint(1, 2 * s["assign_frq"] * s["unit_time"] // 60 - 1))
        for i, s in enumerate(wl.scenarios(seed, n // 4, kind, "C03tiny", [dict(max_interval=40, load=1)])):
            rng = random.Random("C03y/%s/%d/%d" % (kind, seed, i))
            s["init_demand_split"] = rng.choice([0, 0, 1])
            for row in s["demand"]:
                k = rng.choice([0, 0, 1, 7])
                for vec in row[2:]:
                    vec[:] = [round((k + rng.choice([0, 0.01, 0.03, 0.04, 0.1, 0.3, 0.6, 0.9, 0.96, 0.99])) / s["flow_scalar"], 6) for _ in vec]
            ss.append(s)
        out += wl.chunks(ss, 4)
    return out


def bucket(s, x):
    f = x - math.floor(x)
    return "%s demand %s, fraction %s" % (s["kind"], "below one" if x < 1 else "above one",
                                          [n for b, n in ((0.05, "<.05"), (0.5, "<.5"), (0.95, "<.95"), (2, ">.95")) if f < b][0])


def td_ratio(s, rng):
    rows = {}
    txt = "# O D ratios\n"
    n = s["max_interval"] * (2 if s["kind"] == "mcdta" else 1)
    for r in s["demand"]:
        if rng.random() < 0.6:
            v = [rng.choice([0, 0.2, 0.7, 1]) for _ in range(n)]
            rows["%d %d" % (r[0], r[1])] = v
            txt += "%d %d %s\n" % (r[0], r[1], " ".join(map(str, v)))
    if rows:
        s["td_ratio"] = rows
        s.setdefault("files", {})["MNM_input_od_td_adaptive_ratio"] = txt


def labels(s, rng):
    names = ["MNM_input_origin_vehicle_label"] if s["kind"] == "dta" else ["MNM_origin_label_car", "MNM_origin_label_truck"]
    keys = ["num_of_vehicle_labels"] if s["kind"] == "dta" else ["num_of_car_labels", "num_of_truck_labels"]
    s["labels"] = []
    for nm, k in zip(names, keys):
        n = rng.choice([2, 3])
        tab = {}
        txt = "# origin ratios\n"
        for o, node in s["origins"]:
            w = [rng.choice([0, 1, 2, 3]) + 0.01 for _ in range(n)]
            w = [round(x / sum(w), 4) for x in w]
            w[-1] = round(1 - sum(w[:-1]), 4)
            tab[str(node)] = w
            txt += "%d %s\n" % (o, " ".join(map(str, w)))
        s["labels"].append(tab)
        s.setdefault("files", {})[nm] = txt
        s["conf"] = dict(s.get("conf", {}), **{k: n})


def schedule(s):
    """(o, d, cls) -> {tick: expected real number}"""
    on = dict(map(tuple, s["origins"]))
    dn = dict(map(tuple, s["dests"]))
    sc = s["flow_scalar"]
    start = s.get("conf", {}).get("start_assign_interval", 0)
    r = {}
    for row in s["demand"]:
        for c, vec in enumerate(row[2:]):
            e = {}
            for j, x in enumerate(vec):
                if s["kind"] == "dta":
                    if j >= start:
                        e[(j - start) * s["assign_frq"]] = x * sc
                    continue
                pm = int(60 / s["unit_time"])
                m = s["assign_frq"] // pm
                if s["init_demand_split"] == 0:
                    e[j * m * pm] = x * sc
                    continue
                for k in range(m, 0, -1):
                    if math.floor(x / k * sc) >= 1:
                        for p in range(k):
                            e[(j * m + p) * pm] = x / k * sc
                        break
            if s["kind"] != "dta" and start:        # minutes
                k = start * int(60 / s["unit_time"])
                e = {t - k: x for t, x in e.items() if t >= k}
            r[(on[row[0]], dn[row[1]], c)] = e
    return r


def run(ctx, case):
    pool = dict(dev=0.0, var=0.0, adev=0.0, avar=0.0)
    lab = {}
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i), pool, lab)
    return dict(pool=pool, lab=lab)


def finish(results):
    """The random part, pooled over every case."""
    tot = {}
    lab = {}
    for c, r in results:
        x = r.get("extra") or {}
        for k, v in x.get("pool", {}).items():
            tot[k] = tot.get(k, 0.0) + v
        for k, v in x.get("lab", {}).items():
            a = lab.setdefault(k, [0.0, 0.0])
            a[0] += v[0]
            a[1] += v[1]
    out = []
    if not results:
        return out
    c0 = results[0][0]
    for d, v, what in (("dev", "var", "released vehicles against demand"), ("adev", "avar", "adaptive vehicles against their ratio")):
        if tot.get(v, 0) > 20 and abs(tot[d]) > 6 * math.sqrt(tot[v]):
            out.append((c0, "pooled %s: off by %.1f, standard deviation %.1f" % (what, tot[d], math.sqrt(tot[v]))))
    for k, (d, v) in lab.items():
        if v > 20 and abs(d) > 6 * math.sqrt(v):
            out.append((c0, "pooled count (%s): off by %.1f, standard deviation %.1f" % (k, d, math.sqrt(v))))
    return out


def one(ctx, s, d, pool, lab):
    o = ctx.load(s, d)
    ctx.sig(wl.shape(s))
    sc = s["flow_scalar"]
    exp = schedule(s)
    # without the monitor: totals reported by the interface
    st = o.get_travel_stats()
    cls = [0] if s["kind"] == "dta" else [0, 1]
    for c in cls:
        lo = sum(math.floor(x + 1e-9) for (a, b, k), e in exp.items() if k == c for x in e.values())
        hi = sum(math.ceil(x - 1e-9) for (a, b, k), e in exp.items() if k == c for x in e.values())
        got = st[c] * sc
        ctx.expect(lo - 1e-6 <= got <= hi + 1e-6, lambda: "class %d: %.6g vehicles released, the demand file asks for %d to %d" % (c, got, lo, hi))
    onode = {str(n): i for i, n in s["origins"]}
    dnode = {str(n): i for i, n in s["dests"]}
    for seg in ctx.mon.segments():
        got = {}
        for v in seg.veh.values():
            k = (v.o, v.d, v.cls)
            got.setdefault(k, {}).setdefault(v.start, []).append(v)
            ctx.expect(v.start == v.seen, lambda: "vehicle %d appeared at interval %d with departure time %d" % (v.id, v.seen, v.start))
        for k in set(got) | set(exp):
            e = exp.get(k, {})
            g = got.get(k, {})
            for t in set(e) | set(g):
                x = e.get(t, 0.0)
                vs = g.get(t, [])
                ctx.expect(math.floor(x + 1e-9) <= len(vs) <= math.ceil(x - 1e-9),
                           lambda: "origin %d to %d class %d at interval %d: %d vehicles released, demand times scalar is %.6f"
                           % (k[0], k[1], k[2], t, len(vs), x))
                ctx.count("releases")
                f = x - math.floor(x)
                pool["dev"] += len(vs) - x
                pool["var"] += f * (1 - f)
                a = lab.setdefault(bucket(s, x), [0.0, 0.0])
                a[0] += len(vs) - x
                a[1] += f * (1 - f)
                if not vs:
                    continue
                # adaptive or fixed
                ra = dict(Adaptive=1, Fixed=0).get(s["routing"])
                if ra is None:
                    ra = s["adaptive_ratio"] if s["routing"] == "Hybrid" else s["adaptive_ratio_car" if k[2] == 0 else "adaptive_ratio_truck"]
                    td = s.get("td_ratio", {}).get("%d %d" % (onode[str(k[0])], dnode[str(k[1])]))
                    if td:
                        first = s.get("conf", {}).get("start_assign_interval", 0)
                        j = t // s["assign_frq"] + first if s["kind"] == "dta" else (t + first * int(60 / s["unit_time"])) // s["assign_frq"]
                        ra = td[j + k[2] * s["max_interval"]]
                na = sum(1 for v in vs if v.type == 0)
                if ra in (0, 1):
                    ctx.expect(na == ra * len(vs), lambda: "origin %d to %d class %d at %d: %d of %d vehicles adaptive, ratio %g"
                               % (k[0], k[1], k[2], t, na, len(vs), ra))
                else:
                    pool["adev"] += na - ra * len(vs)
                    pool["avar"] += len(vs) * ra * (1 - ra)
                    a = lab.setdefault("adaptive at a share of %.1f of class %d in %s" % (ra, k[2], s["routing"]), [0.0, 0.0])
                    a[0] += na - ra * len(vs)
                    a[1] += len(vs) * ra * (1 - ra)
                    ctx.count("mixed_releases", len(vs))
                    if len(vs) >= 8:
                        sd = math.sqrt(len(vs) * ra * (1 - ra))
                        ctx.expect(abs(na - ra * len(vs)) <= 6.5 * sd + 1, lambda: "origin %d to %d class %d at %d: %d of %d vehicles adaptive, ratio %g"
                                   % (k[0], k[1], k[2], t, na, len(vs), ra))
                if s.get("labels"):
                    w = s["labels"][k[2] if s["kind"] == "mcdta" else 0][str(k[0])]
                    for j, p in enumerate(w):
                        a = lab.setdefault("label %d of class %d" % (j, k[2]), [0.0, 0.0])
                        a[0] += sum(1 for v in vs if v.label == j) - p * len(vs)
                        a[1] += len(vs) * p * (1 - p)
                    ctx.expect(all(0 <= v.label < len(w) for v in vs), "a vehicle carries a label outside the table")
                    ctx.count("labelled", len(vs))
                else:
                    ctx.expect(all(v.label == -1 for v in vs), "a vehicle carries a label without a label table")
