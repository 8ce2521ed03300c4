"""Multimodal assignment records: which path flow of which departure interval uses a link, and when."""
import importlib.util
import os
import random

import numpy as np

import mmor

RULE = ("one evaluation = 2 random multimodal networks with pre-trip routing; every record of the eleven assignment matrices is "
        "compared with the entries of vehicles and passengers the monitor saw; distinct = different (network size, lines, lots, "
        "explicit or scheduled buses, scalar, demand split)")
ASSUMPTIONS = ["driving links out of origins are not covered by the assignment records"]
TIMEOUT = 120
HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


VAR = [dict(), dict(explicit_bus=0, pload=20), dict(pload=40, bus_capacity=3), dict(flow_scalar=1, pload=20, bus_levels=[1, 2]),
       dict(tight=True, load=60, pickup=[30, 60]), dict(routes=3, load=30, max_interval=4), dict(mm_total=90, load=40, pload=30)]


def gen(tier, seed):
    n = 480 if tier == "quick" else 4000
    ss = mod("C23").scenarios(seed, n, "C26", VAR)
    return [dict(scens=ss[i:i + 2]) for i in range(0, len(ss), 2)]


def run(ctx, case):
    base = mod("C23")
    rec = mod("C25")
    for i, s in enumerate(case["scens"]):
        one(ctx, base, rec, s, ctx.write(s, "n%d" % i))


def one(ctx, base, rec, s, d):
    rng = random.Random("C26/%d" % s["seed"])
    ctx.mon.config(1)
    ctx.mp.set_random_state(s["seed"] % (2 ** 31))
    o = ctx.mp.Mmdta.from_files(d)
    m = s["mm"]
    reg = rec.register(o, s, rng)
    onodes = {r[1] for r in s["origins"]}
    L = {l[0]: l for l in s["links"]}
    over = overlap(ctx, o, s, reg, L) if reg["bus"] else []
    bd = rng.sample(over, rng.randint(1, len(over))) if over else []
    if bd:
        o.register_links_bus_driving(np.array(bd))
    nd, nt, np_, nb = len(s["paths"]), len(m["bt_paths"]), len(m["pnr_paths"]), len(m["buses"])
    off = dict(driving=0, bustransit=nd, pnr=nd + nt, bus=nd + nt + np_)
    for k, n in (("driving", nd), ("bustransit", nt), ("pnr", np_), ("bus", nb)):
        x = list(range(off[k], off[k] + n))
        rng.shuffle(x)
        if n:
            getattr(o, "register_paths_" + k)(np.array(x))
    o.install_cc()
    o.install_cc_tree()
    ctx.mon.reset()
    with ctx.mp.utils.silence(1) if hasattr(ctx.mp, "utils") and hasattr(ctx.mp.utils, "silence") else nothing():
        o.run_whole(False)
    ctx.sig(base.shape(s))
    T = o.get_cur_loading_interval()
    a = s["assign_frq"]
    # which path it is, or the first of those that cannot be told apart
    first = {}
    grp = {}

    def name(kind, i, key):
        f = first.setdefault((kind,) + key, i)
        grp[kind, i] = f

    for i, p in enumerate(s["paths"]):
        name("driving", i, (p[0][0], p[0][-1], tuple(p[2])))
    for i, p in enumerate(m["bt_paths"]):
        name("bustransit", nd + i, (p["o"], p["d"], tuple(p["links"])))
    for i, p in enumerate(m["pnr_paths"]):
        name("pnr", nd + nt + i, (p["o"], p["d"], tuple(p["dlinks"]) + (-1,) + tuple(p["links"])))
    for i, b in enumerate(m["buses"]):
        name("bus", nd + nt + np_ + i, (b["o"], b["d"], b["route"]))
    want = {}          # what -> {(path, departure interval, link): [ticks]}
    segs = ctx.mon.segments()
    seen = bool(segs) and ctx.mon.mm
    if seen:
        seg = segs[0]
        h = mmor.MM(s, seg)
        for v in seg.veh.values():
            k = mmor.kind(v)
            if k == "bus":
                p = first.get(("bus", v.o, v.d, v.bus))
            else:
                kind = "pnr" if k == "pnr" else "driving"
                p = first.get((kind, v.o, v.d, tuple(seg.paths.get(v.moves[0][3], ()))))
            if not ctx.expect(p is not None, lambda: "%s %d has no path of the table" % (k, v.id)):
                continue
            for l, t, _ in h.visits[v.id]:
                if L[l][1] not in onodes:
                    want.setdefault(k, {}).setdefault((p, v.start // a, l), []).append(t + 1)
            if k == "bus":
                busride(h, s, v, p, a, want)
        for q in seg.pax.values():
            k = "pnr_passenger" if q.pnr else "passenger"
            links = tuple(seg.paths.get(q.moves[0][3], ()))
            p = first.get(("pnr", q.o, q.d, links) if q.pnr else ("bustransit", q.o, q.d, links))
            if not ctx.expect(p is not None, lambda: "passenger %d has no path of the table" % q.id):
                continue
            for l, t, _ in h.walks[q.id]:
                want.setdefault(k, {}).setdefault((p, q.assign, l), []).append(t + 1)
    if rng.random() < 0.7:
        starts = list(range(0, T, a))
        ends = [min(T, x + a) for x in starts]
    else:
        starts = [rng.randint(0, T - 1) for _ in range(5)]
        ends = [rng.randint(x + 1, T) for x in starts]
    S, E = np.array(starts), np.array(ends)
    for f, k, kind, links in (("get_car_dar_matrix_driving", "car", "driving", reg["driving"]), ("get_truck_dar_matrix_driving", "truck", "driving", reg["driving"]),
                              ("get_car_dar_matrix_pnr", "pnr", "pnr", reg["driving"]), ("get_bus_dar_matrix_driving_link", "bus", "bus", reg["driving"]),
                              ("get_passenger_dar_matrix_bustransit", "passenger", "bustransit", reg["bus"] + reg["walking"]),
                              ("get_passenger_dar_matrix_pnr", "pnr_passenger", "pnr", reg["bus"] + reg["walking"]),
                              ("get_car_dar_matrix_bus_driving_link", "car", "driving", bd), ("get_truck_dar_matrix_bus_driving_link", "truck", "driving", bd),
                              ("get_passenger_dar_matrix_bustransit_bus_link", "passenger", "bustransit", reg["bus"]),
                              ("get_passenger_dar_matrix_pnr_bus_link", "pnr_passenger", "pnr", reg["bus"]),
                              ("get_bus_dar_matrix_bustransit_link", "buslink", "bus", reg["bus"])):
        g = getattr(o, f)
        r = quiet(ctx, g, S, E)
        ctx.expect(r.ndim == 2 and r.shape[1] == 5, lambda: "%s: shape %s" % (f, r.shape))
        got = {}
        for x in r.tolist():
            p = grp.get((kind, int(x[0])))
            if ctx.expect(p is not None, lambda: "%s names path %d, which is not of that kind" % (f, int(x[0]))):
                key = (p, int(x[1]), int(x[2]), int(x[3]))
                got[key] = got.get(key, 0) + x[4]
        if seen and links:
            exp = {}
            low = {}
            for (p, c, l), ticks in want.get(k, {}).items():
                if l not in links:
                    continue
                n = links.count(l)
                ticks = [t if isinstance(t, tuple) else (t, t) for t in ticks]
                for x, y in zip(starts, ends):
                    hi = sum(1 for u, w in ticks if w > x and u <= y)
                    lo = sum(1 for u, w in ticks if u > x and w <= y)
                    if hi:
                        key = (p, c, l, x)
                        exp[key] = exp.get(key, 0) + n * hi / s["flow_scalar"]
                        low[key] = low.get(key, 0) + n * lo / s["flow_scalar"]
            for key in set(got) | set(exp):
                ctx.expect(low.get(key, 0) - 1e-6 <= got.get(key, 0) <= exp.get(key, 0) + 1e-6,
                           lambda: "%s: path %d of departure interval %d on link %d from %d on: flow %.6g reported, %.6g observed" % ((f,) + key + (got.get(key, 0), exp.get(key, 0))))
                ctx.count("records")
            ctx.count(f[4:], len(exp))
        for x, y in ((0, 0), (T, T + 1), (0, T + 1)):
            try:
                quiet(ctx, g, np.array([x]), np.array([y]))
                if links:
                    ctx.fail("%s answered for [%d, %d) of %d intervals" % (f, x, y, T))
            except RuntimeError:
                ctx.count("refused_queries")


def overlap(ctx, o, s, reg, L):
    """The driving links under each registered bus link, and the share of each that is driven."""
    m = s["mm"]
    phys = {p[0]: p for p in m["phys"]}
    at = {v[0]: phys[v[1]] for v in m["virt"]}
    want = {}
    for l in m["tl"]:
        if l["id"] in reg["bus"]:
            a, b = at[l["a"]], at[l["b"]]
            for x in l["over"]:
                n = L[x][4]
                if L[x][3] == "CTM":
                    n = max(n, L[x][5] * s["unit_time"] / 3600.0)        # at least one cell
                lo = a[2] if x == a[1] else 0.0
                hi = b[2] if x == b[1] else n
                want[l["id"], x] = (hi - lo) / n
    got = {(int(r[0]), int(r[1])): r[2] for r in np.asarray(o.get_links_overlapped_bus_driving()).tolist()}
    ctx.expect(set(got) == set(want), lambda: "driving links under bus links: %s reported, %s expected" % (sorted(got)[:8], sorted(want)[:8]))
    for k in set(got) & set(want):
        ctx.expect(abs(got[k] - want[k]) < 1e-4, lambda: "bus link %d covers %.6g of driving link %d, expected %.6g" % (k[0], got[k], k[1], want[k]))
        ctx.count("overlaps")
    return sorted({k[1] for k in want})


def busride(h, s, v, p, a, want):
    """A bus enters a link of its line when it leaves the stop before it."""
    line = h.routes[v.bus]
    for l in s["mm"]["tl"]:
        if l["kind"] != "bus" or l["route"] != v.bus:
            continue
        st = l["a"]
        link = h.phys[h.virt[st][1]][1]
        ent = [x for x in h.visits[v.id] if x[0] == link]
        if not ent:
            continue
        last, cur = None, -1
        for t, stop, *_ in v.stops:
            if cur == st and stop != st:
                last = t
            cur = stop
        if last is not None:
            iv = (last + 1, last + 1)
        elif ent[0][2] is not None and cur != st:
            iv = (ent[0][1] + 1, ent[0][2] + 1)       # drove through
        elif cur == st:
            continue
        else:
            iv = (ent[0][1] + 1, 10 ** 9)
        want.setdefault("buslink", {}).setdefault((p, v.start // a, l["id"]), []).append(iv)


class nothing:
    def __enter__(self):
        return self

    def __exit__(self, *x):
        return False


def quiet(ctx, f, *x):
    return f(*x)
