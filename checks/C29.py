"""Multimodal path shares: every mode's departures split as the column in force of that mode's table says."""
import importlib.util
import math
import os
import random

import mmor

RULE = ("one evaluation = 2 random multimodal networks whose share tables hold zero, full, mixed, tiny, huge and all-zero "
        "columns; the departures on pre-trip routes are counted per (mode, pair, column, path) and compared with the "
        "normalised shares: paths of share 0 and 1 exactly, the others pooled at 6 standard deviations; distinct = network shapes")
ASSUMPTIONS = ["a traveller chooses a path when released, independently of the others",
               "the driving table has the columns of cars first and those of trucks after them, all of one length"]
TIMEOUT = 120
VAR = [dict(pload=40, load=30), dict(pload=40, load=30, explicit_bus=0), dict(pload=60, load=40, flow_scalar=1),
       dict(pload=30, load=20, adaptive_ratio_passenger=0.4, adaptive_ratio_car=0.4, adaptive_ratio_truck=0.3),
       dict(pload=30, load=20, npaths=5, routes=3)]


def mod(name):
    sp = importlib.util.spec_from_file_location(name, os.path.join(os.path.dirname(os.path.abspath(__file__)), name + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def gen(tier, seed):
    n = 240 if tier == "quick" else 2400
    ss = mod("C23").scenarios(seed, n, "C29", VAR)
    for i, s in enumerate(ss):
        rng = random.Random("C29t/%d/%d" % (seed, i))
        cols = s["max_interval"]
        if rng.random() < 0.4:
            s["fixed_route_frq"] = max(1, s["assign_frq"] // 2)
            cols = 2 * cols
        elif rng.random() < 0.3:
            s["fixed_route_frq"] = 2 * s["assign_frq"]
        else:
            s["fixed_route_frq"] = s["assign_frq"]
        s["mm_buffer"] = 2 * cols
        tables = [([(p[0][0], p[0][-1]) for p in s["paths"]], 2 * cols), ([(p["o"], p["d"]) for p in s["mm"]["bt_paths"]], cols),
                  ([(p["o"], p["d"]) for p in s["mm"]["pnr_paths"]], cols)]
        res = []
        for pairs, k in tables:
            buf = [[0.0] * k for _ in pairs]
            for pr in sorted(set(pairs)):
                ps = [buf[j] for j, q in enumerate(pairs) if q == pr]
                style = rng.choice(["mix", "mix", "one-hot", "all-zero"])
                for c in range(k):
                    if style == "all-zero" and rng.random() < 0.5:
                        continue
                    if style == "one-hot":
                        rng.choice(ps)[c] = rng.choice([1.0, 0.3, 25.0, 0.004, 4000.0])
                        continue
                    w = [rng.choice([0, 1, 1, 2, 5]) * rng.random() for _ in ps]
                    if sum(w) <= 0:
                        w[rng.randrange(len(ps))] = 1.0
                    sc = rng.choice([1.0, 10.0, 1.0 / sum(w), 0.002, 1000.0])
                    for q, x in zip(ps, w):
                        q[c] = round(x * sc, 6)
            res.append(buf)
        for p, b in zip(s["paths"], res[0]):
            p[1] = b
        for p, b in zip(s["mm"]["bt_paths"], res[1]):
            p["buf"] = b
        for p, b in zip(s["mm"]["pnr_paths"], res[2]):
            p["buf"] = b
        for t in (s["paths"], s["mm"]["bt_paths"], s["mm"]["pnr_paths"]):
            rng.shuffle(t)
    return [dict(scens=ss[i:i + 2]) for i in range(0, len(ss), 2)]


def run(ctx, case):
    C = mod("C23")
    ctx.pool = {}
    for i, s in enumerate(case["scens"]):
        C.load(ctx, s, ctx.write(s, "n%d" % i))
        ctx.sig(C.shape(s))
        if ctx.mon.mm:
            for seg in ctx.mon.segments():
                one(ctx, s, seg)
    return dict(pool=[[k] + v for k, v in ctx.pool.items()])


def one(ctx, s, seg):
    half = s["mm_buffer"] // 2
    table = {}
    for p in s["paths"]:
        table.setdefault(("car", p[0][0], p[0][-1]), []).append((tuple(p[2]), p[1][:half]))
        table.setdefault(("truck", p[0][0], p[0][-1]), []).append((tuple(p[2]), p[1][half:]))
    for p in s["mm"]["bt_paths"]:
        table.setdefault(("passenger", p["o"], p["d"]), []).append((tuple(p["links"]), p["buf"]))
    for p in s["mm"]["pnr_paths"]:
        table.setdefault(("pnr", p["o"], p["d"]), []).append((tuple(p["dlinks"]) + (-1,) + tuple(p["links"]), p["buf"]))
    cnt = {}
    who = [(mmor.kind(v), v) for v in seg.veh.values()] + [("passenger", p) for p in seg.pax.values() if not p.pnr]
    for k, v in who:
        if k == "bus" or v.type != 1 or not v.moves:
            continue
        no = v.moves[0][3]
        if not ctx.expect(no >= 0, lambda: "%s %d was released without a path" % (k, v.id)):
            continue
        c = min(v.seen // s["fixed_route_frq"], half - 1)
        e = cnt.setdefault((k, v.o, v.d, c), {})
        p = tuple(seg.paths[no])
        e[p] = e.get(p, 0) + 1
    for (k, a, b, c), e in cnt.items():
        ps = table.get((k, a, b), [])
        if not ctx.expect(bool(ps), lambda: "%s travellers from %d to %d, a pair without paths" % (k, a, b)):
            continue
        tot = sum(x[c] for _, x in ps)
        n = sum(e.values())
        for links, x in ps:
            share = x[c] / tot if tot > 0 else 1.0 / len(ps)
            m = e.pop(links, 0)
            what = "from %d to %d, column %d: %d of %d travellers (%s) took path %s, whose share is %.4f" % (a, b, c, m, n, k, links, share)
            if share == 0:
                ctx.expect(m == 0, what)
            elif share > 1 - 1e-12:
                ctx.expect(m == n, what)
            else:
                ctx.expect(abs(m - n * share) <= 6.5 * math.sqrt(n * share * (1 - share)) + 4, what)
                q = ctx.pool.setdefault("%s %.1f" % (k, share), [0, 0.0, 0.0])
                q[0] += m
                q[1] += n * share
                q[2] += n * share * (1 - share)
            ctx.count("shares_" + k)
        ctx.expect(not e, lambda: "%s travellers from %d to %d on paths outside the table: %s" % (k, a, b, e))
        ctx.count("departures_" + k, n)


def finish(results):
    return mod("C07").finish(results)
