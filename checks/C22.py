"""Result files: link results, tracked vehicles; and the silence utility."""
import importlib.util
import os
import random

import numpy as np
import wl

HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


C12 = mod("C12")
RULE = ("one evaluation = 3 scenarios; every row of the link result file is recomputed from the cumulative curves, every row of the tracked vehicles is looked up in the "
        "monitor's log, and outputs and exceptions are passed through silence(); distinct = scenario shapes and settings")
ASSUMPTIONS = ["links whose free-flow time is on the edge of two interval counts are judged on flows only"]
TIMEOUT = 120


def gen(tier, seed):
    n = 240 if tier == "quick" else 1500
    out = []
    for kind, var in (("dta", wl.SINGLE), ("mcdta", wl.MULTI + [dict(load=40), dict(load=40, routing="Biclass_Hybrid")])):
        ss = wl.scenarios(seed, n if kind == "dta" else 2 * n, kind, "C22", var)
        for i, s in enumerate(ss):
            rng = random.Random("C22/%s/%d/%d" % (kind, seed, i))
            s["freq"] = rng.choice([1, 3, 12, 60, 180, 200])
            s["rate"] = rng.choice([0, 0.3, 1, 1, 1])
            s["files"] = dict(s.get("files", {}))
            if kind == "mcdta":
                s["freq"] = rng.choice([0, 1, 3, 12, 60])
                if rng.random() < 0.5:
                    s["pairs"] = [list(r[:2]) for r in s["demand"] if rng.random() < 0.5]
                    if rng.random() < 0.3:
                        s["pairs"].append([987654, 987655])
                    s["files"]["MNM_input_od_tracking"] = "origin destination\n" + "".join("%d %d\n" % tuple(x) for x in s["pairs"])
                if rng.random() < 0.4:
                    top = s["max_interval"] * s["assign_frq"]
                    s["ticks"] = sorted(rng.sample(range(top), min(top, rng.choice([1, 20, top // 2]))))
                    s["files"]["MNM_input_interval_tracking"] = "interval\n" + "".join("%d\n" % x for x in s["ticks"])
        out += wl.chunks(ss, 3)
    return out


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        d = ctx.write(s, "n%d" % i)
        ctx.sig("%s %d %s" % (wl.shape(s), s["freq"], s["rate"]))
        if s["kind"] == "mcdta" and s["seed"] % 2:
            tracked(ctx, s, d)
        else:
            results(ctx, s, d)
    silence(ctx, case["scens"][0])


def close(a, b):
    return abs(a - b) <= 2e-6 + 1e-6 * abs(b)


def results(ctx, s, d):
    mc = s["kind"] == "mcdta"
    o = ctx.load(s, d)
    T = o.get_cur_loading_interval()
    f = s["freq"]
    u = float(s["unit_time"])
    out = os.path.join(ctx.tmp, "res")
    os.makedirs(out, exist_ok=True)
    name = os.path.join(out, "driving_link_cong_raw.txt")
    if os.path.exists(name):
        os.remove(name)
    o.print_simulation_results(out, f)
    if f == 0:
        ctx.expect(not os.path.exists(name), "a result file although none was asked for")
        return
    lines = open(name).read().splitlines()
    head, rows = lines[0].split(), [[float(x) for x in r.split()] for r in lines[1:]]
    L = {l[0]: l for l in s["links"]}
    steps = list(range(0, T - f + 1, f))
    want = [(t, l) for t in steps for l in sorted(L)]
    ctx.expect(sorted((r[0], r[1]) for r in rows) == want, lambda: "the rows of the result file are not one per link and period of %d intervals until %d" % (f, T))
    ctx.expect(all(len(r) == len(head) for r in rows), "a row of the result file has not one value per column")
    classes = [(0, "car"), (1, "truck")] if mc else [(0, "vehicle")]
    for cls, nm in classes:
        pre = nm + "_" if mc else ""
        col = {c: head.index(nm + "_" + c) for c in ("inflow", "outflow", "tt(s)", "fftt(s)", "freeflow_speed(mph)", "speed(mph)")}
        G = {l: C12.Link(s, L[l], cls) for l in L}
        cin = {l: C12.Curve(getattr(o, "get_%slink_in_cc" % pre)(l)) for l in L}
        cout = {l: C12.Curve(getattr(o, "get_%slink_out_cc" % pre)(l)) for l in L}
        for r in rows:
            t, l = int(r[0]), int(r[1])
            if l not in L:
                continue
            what = lambda c: "%s of link %d (%s) from interval %d" % (nm + " " + c, l, L[l][3], t)
            for c, q in (("inflow", cin[l]), ("outflow", cout[l])):
                e = q.at(t + f) - q.at(t)
                ctx.expect(close(r[col[c]], e), lambda: "%s: %g in the file, the curve says %g" % (what(c), r[col[c]], e))
            ctx.count("flows", 2)
            if len(G[l].ff) > 1:
                continue
            ff = list(G[l].ff)[0]
            ctx.expect(close(r[col["fftt(s)"]], ff * u), lambda: "%s: %g s in the file, expected %g" % (what("free-flow time"), r[col["fftt(s)"]], ff * u))
            n = min(10, f)
            e = sum(max(C12.travel(cin[l], cout[l], t + 1 + q * f / n, T, {ff})) for q in range(n)) / n * u
            ctx.expect(close(r[col["tt(s)"]], e), lambda: "%s: %g s in the file, the curves say %g" % (what("travel time"), r[col["tt(s)"]], e))
            ctx.expect(abs(r[col["speed(mph)"]] * r[col["tt(s)"]] - G[l].len * 3600 / 1600) < 1e-4 * (1 + G[l].len + r[col["tt(s)"]]) and
                       abs(r[col["freeflow_speed(mph)"]] * r[col["fftt(s)"]] - G[l].len * 3600 / 1600) < 1e-4 * (1 + G[l].len + r[col["fftt(s)"]]),
                       lambda: "%s: %g and %g mph do not belong to %g and %g s over %g m" % (
                           what("speed"), r[col["speed(mph)"]], r[col["freeflow_speed(mph)"]], r[col["tt(s)"]], r[col["fftt(s)"]], G[l].len))
            ctx.count("times")


def tracked(ctx, s, d):
    o = ctx.build(s, d)
    ctx.mon.reset()
    out = os.path.join(ctx.tmp, "trk")
    os.makedirs(out, exist_ok=True)
    name = os.path.join(out, "vehicle_route_cong_raw.txt")
    if os.path.exists(name):
        os.remove(name)
    o.run_whole_vehicle_tracking(False, out, s["rate"], s["freq"])
    if s["freq"] == 0:
        ctx.expect(not os.path.exists(name), "a file of tracked vehicles although none was asked for")
        return
    lines = open(name).read().splitlines()
    rows = [r.split() for r in lines[1:]]
    segs = ctx.mon.segments()
    if not segs:
        return
    seg = segs[0]
    T = o.get_cur_loading_interval()
    f = s["freq"]
    V = seg.veh
    oid = {n: i for i, n in s["origins"]}
    did = {n: i for i, n in s["dests"]}
    state = {}                     # vehicle -> list of (interval, current, next)
    by = {}
    for r in rows:
        if not ctx.expect(len(r) == 11 and int(r[1]) in V, lambda: "tracked vehicle %s is unknown or the row is incomplete" % r):
            continue
        v = V[int(r[1])]
        t = int(r[0])
        by.setdefault(v.id, []).append(t)
        exp = ["habitual" if v.type == 1 else "adaptive", v.start, oid.get(v.o), v.o, did.get(v.d), v.d]
        ctx.expect([r[2]] + [int(x) for x in r[3:8]] == exp, lambda: "tracked vehicle %d: %s in the file, it has %s" % (v.id, r[2:8], exp))
        if v.id not in state:
            state[v.id] = [(m[0], m[1], m[2]) for m in v.moves]
        now = [m for m in state[v.id] if m[0] <= t]
        e = (now[-1][1], now[-1][2]) if now else (-1, -1)
        ctx.expect((int(r[8]), int(r[9])) == e, lambda: "tracked vehicle %d at interval %d is on link %s with link %s next, the file says %s and %s" % (v.id, t, e[0], e[1], r[8], r[9]))
        ctx.expect(0 <= float(r[10]) <= 1, lambda: "tracked vehicle %d: position %s on the link" % (v.id, r[10]))
        ctx.count("tracked rows")
    pairs = {tuple(x) for x in s.get("pairs", [])}
    ticks = set(s.get("ticks", []))
    for v in V.values():
        ok = v.start % f == 0 and (not ticks or v.start in ticks) and (not pairs or (oid.get(v.o), did.get(v.d)) in pairs)
        at0 = [m for m in v.moves if m[0] <= v.start]
        placed = bool(at0) and at0[-1][1] >= 0 and at0[-1][2] >= 0
        got = by.get(v.id)
        if got is None:
            ctx.expect(not (ok and placed) or s["rate"] < 1, lambda: "vehicle %d departs at %d and should be tracked, but is not in the file" % (v.id, v.start))
            continue
        ctx.expect(ok, lambda: "vehicle %d (departure %d, %s to %s) is tracked, but was not asked for" % (v.id, v.start, oid.get(v.o), did.get(v.d)))
        ctx.expect(s["rate"] > 0, lambda: "vehicle %d is tracked with a sampling rate of 0" % v.id)
        end = v.gone if v.gone is not None else T
        e = [t for t in range(v.start, end) if t % f == 0]
        ctx.expect(got == e, lambda: "vehicle %d is in the file at %s, it is under way at %s" % (v.id, got[:8], e[:8]))
        ctx.count("vehicles tracked")


def silence(ctx, s):
    """What is written to the descriptor is dropped inside, nothing else changes."""
    from macposts.utils import silence as sil
    rng = random.Random("C22s/%d" % s["seed"])
    name = os.path.join(ctx.tmp, "out.txt")
    fd = os.open(name, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    other = os.open(name + "2", os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    before = sorted(os.listdir("/proc/self/fd"))
    want = b""
    want2 = b""

    class Boom(Exception):
        pass

    def block(depth):
        nonlocal want, want2
        for _ in range(rng.randint(1, 3)):
            x = b"%d " % rng.randrange(10 ** 6)
            os.write(fd, x)
            os.write(other, x)
            want2 += x
            if depth == 0:
                want += x
            if depth < 3 and rng.random() < 0.5:
                try:
                    with sil(fd):
                        block(depth + 1)
                        if rng.random() < 0.4:
                            raise Boom(depth)
                except Boom as e:
                    # an exception of the block comes out as it is
                    ctx.expect(e.args == (depth,), "silence() changed an exception")
            ctx.count("silence steps")
    for _ in range(4):
        block(0)
    for bad in (-1, 10 ** 6):
        seen = False
        try:
            with sil(bad):
                raise Boom(7)
        except Boom:
            seen = True
        ctx.expect(seen, lambda: "silence(%d) swallowed the exception of its block" % bad)
    ctx.expect(sorted(os.listdir("/proc/self/fd")) == before, "silence() leaves file descriptors open")
    os.lseek(fd, 0, 0)
    os.lseek(other, 0, 0)
    ctx.expect(os.read(fd, 10 ** 6) == want, "silence() lost or let through output")
    ctx.expect(os.read(other, 10 ** 6) == want2, "silence() lost output of another descriptor")
    os.close(fd)
    os.close(other)
    # what the simulator prints through its own buffers stays inside, too
    save = os.dup(1)
    fd = os.open(name, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    try:
        with sil(1):
            o = ctx.load(dict(s), ctx.write(s, "sil"))
            del o
        os.write(1, b"end")
    finally:
        os.dup2(save, 1)
        os.close(save)
    os.lseek(fd, 0, 0)
    t = os.read(fd, 10 ** 6)
    os.close(fd)
    ctx.expect(t == b"end", lambda: "output of a silenced loading came out: %r" % t[:200])
