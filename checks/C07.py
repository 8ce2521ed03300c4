"""Path shares: every interval's departures split as that interval's column of the table says."""
import math
import random

import wl

RULE = ("one evaluation = 3 scenarios with pre-trip routing; departures are counted per (pair, interval, class, path) and "
        "compared with the normalised shares: paths of share 0 and 1 exactly, the others pooled at 6 standard deviations; "
        "distinct = scenario shapes")
ASSUMPTIONS = ["a vehicle chooses its path in the interval it is released, independently of the others"]
TIMEOUT = 60


def gen(tier, seed):
    n = 120 if tier == "quick" else 1500
    out = []
    for kind in ("dta", "mcdta"):
        var = [dict(routing="Fixed", load=90), dict(routing="Hybrid", load=90, adaptive_ratio=0.3),
               dict(routing="Fixed", load=60, max_interval=4), dict(routing="Fixed", load=60, npaths=8, inner=6),
               dict(routing="Fixed", load=40, total_interval=60)]
        if kind == "mcdta":
            var += [dict(routing="Biclass_Hybrid", load=90, adaptive_ratio_car=0, adaptive_ratio_truck=0, max_interval=3),
                    dict(routing="Biclass_Hybrid", load=90, adaptive_ratio_car=0.2, adaptive_ratio_truck=0.4)]
        ss = wl.scenarios(seed, n, kind, "C07", var)
        for i, s in enumerate(ss):
            rng = random.Random("C07t/%s/%d/%d" % (kind, seed, i))
            bi = s["routing"].startswith("Biclass")
            cols = s["max_interval"]
            r = rng.random()
            if r < 0.25 and not bi:
                cols = max(1, cols - 1)           # the last column stays in force
            elif r < 0.5:
                s["fixed_route_frq"] = max(1, s["assign_frq"] // 2)
                cols = 2 * cols
            elif r < 0.6:
                s["fixed_route_frq"] = 2 * s["assign_frq"]
            n2 = cols * (2 if bi else 1)
            s["buffer_length"] = n2
            groups = {}
            for p in s["paths"]:
                groups.setdefault((p[0][0], p[0][-1]), []).append(p)
            for ps in groups.values():
                style = rng.choice(["mix", "mix", "one-hot", "all-zero"])
                for p in ps:
                    p[1] = [0.0] * n2
                for c in range(n2):
                    if style == "all-zero" and rng.random() < 0.5:
                        continue
                    if style == "one-hot":
                        rng.choice(ps)[1][c] = rng.choice([1.0, 0.3, 25.0, 0.004, 4000.0])
                        continue
                    w = [rng.choice([0, 1, 1, 2, 5]) * rng.random() for _ in ps]
                    if sum(w) <= 0:
                        w[rng.randrange(len(ps))] = 1.0
                    sc = rng.choice([1.0, 10.0, 1.0 / sum(w), 0.002, 1000.0])
                    for k, p in enumerate(ps):
                        p[1][c] = round(w[k] * sc, 6)
            rng.shuffle(s["paths"])
        out += wl.chunks(ss, 3)
    return out


def run(ctx, case):
    ctx.pool = {}
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))
    return dict(pool=[[k] + v for k, v in ctx.pool.items()])


def one(ctx, s, d):
    ctx.load(s, d)
    ctx.sig(wl.shape(s))
    bi = s["routing"].startswith("Biclass")
    n2 = s["buffer_length"]
    half = n2 // 2 if bi else n2
    groups = {}
    for p in s["paths"]:
        groups.setdefault((p[0][0], p[0][-1]), []).append(p)
    for seg in ctx.mon.segments():
        cnt = {}
        for v in seg.veh.values():
            no = v.moves[0][3]
            if not ctx.expect(no >= 0, lambda: "vehicle %d was released without a path" % v.id):
                continue
            c = min(v.seen // s["fixed_route_frq"], half - 1)
            if bi and v.cls == 1:
                c += half
            # adaptive vehicles only carry a nominal path; it follows the same shares
            key = (v.o, v.d, c)
            e = cnt.setdefault(key, {})
            p = tuple(seg.paths[no])
            e[p] = e.get(p, 0) + 1
        for (a, b, c), e in cnt.items():
            ps = groups[(a, b)]
            tot = sum(p[1][c] for p in ps)
            n = sum(e.values())
            for p in ps:
                share = p[1][c] / tot if tot > 0 else 1.0 / len(ps)
                k = e.pop(tuple(p[2]), 0)
                what = "from %d to %d, column %d: %d of %d vehicles took path %s, whose share is %.4f" % (a, b, c, k, n, p[2], share)
                if share == 0:
                    ctx.expect(k == 0, what)
                elif share > 1 - 1e-12:
                    ctx.expect(k == n, what)
                else:
                    dev = abs(k - n * share)
                    ctx.expect(dev <= 6.5 * math.sqrt(n * share * (1 - share)) + 4, what)
                    g = "%s %.1f" % (s["routing"], share)
                    q = ctx.pool.setdefault(g, [0, 0.0, 0.0])
                    q[0] += k
                    q[1] += n * share
                    q[2] += n * share * (1 - share)
                ctx.count("shares")
            ctx.expect(not e, lambda: "from %d to %d: vehicles on paths outside the table: %s" % (a, b, e))
            ctx.count("departures", n)


def finish(results):
    pool = {}
    case = {}
    for c, r in results:
        for g, k, m, v in (r.get("extra") or {}).get("pool", []):
            q = pool.setdefault(g, [0, 0.0, 0.0])
            q[0] += k
            q[1] += m
            q[2] += v
            case[g] = c
    out = []
    for g, (k, m, v) in pool.items():
        if abs(k - m) > 6 * math.sqrt(v) + 6:
            out.append((case[g], "paths of %s: %d departures, the shares say %.1f (sd %.1f)" % (g, k, m, math.sqrt(v))))
    return out
