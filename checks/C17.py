"""Path sets: generation, saving and reading back, and covering links with paths."""
import importlib.util
import os
import random
import re

import numpy as np
import wl

HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


C14 = mod("C14")

RULE = ("one evaluation = 4 scenarios; generated path sets are replayed by an independent shortest-path search, "
        "the paths generated to cover links are checked one by one and the saved path tables read back; distinct = scenario shapes and settings")
ASSUMPTIONS = ["path sets whose shortest path is not unique are not replayed beyond that point"]
TIMEOUT = 120
S = [dict(routing="Hybrid", cyclic=True), dict(routing="Hybrid", inner=7), dict(routing="Fixed"), dict(routing="Hybrid", inner=7, nO=3, nD=3, npaths=1),
     dict(routing="Hybrid", npaths=2)]
M = [dict(routing="Biclass_Hybrid"), dict(routing="Biclass_Hybrid", inner=7, cyclic=True),
     dict(routing="Biclass_Hybrid", inner=7, nO=3, nD=3, npaths=1), dict(routing="Biclass_Hybrid", npaths=2)]


def gen(tier, seed):
    n = 600 if tier == "quick" else 3000
    out = []
    for kind, var in (("dta", S), ("mcdta", M)):
        ss = wl.scenarios(seed, n, kind, "C17", var, load=5)
        for s in ss:
            rng = random.Random("C17/%d" % s["seed"])
            if rng.random() < 0.5:
                t = rng.sample([l[0] for l in s["links"]], max(1, len(s["links"]) // 3))
                s["toll"] = {str(i): round(rng.uniform(0.5, 8), 2) for i in t}
                s["files"] = {"MNM_input_link_toll": "#link toll\n" + "".join(
                    "%s %s%s\n" % (k, v, "" if kind == "dta" else " %s" % round(v * 1.7, 2)) for k, v in s["toll"].items())}
                s["conf"] = {"num_of_tolled_link": len(t)}
            s["gen"] = dict(it=rng.choice([0, 1, 2, 5]), vot=rng.choice([0.01, 0.3, 1.0, 6.0]), mid=rng.choice([1.2, 2.0, 3.0]),
                            heavy=rng.choice([2.5, 5.0, 20.0]), minlen=rng.choice([0, 0, 0, 400, 1500]))
        out += wl.chunks(ss, 4)
    return out


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        sets(ctx, s, i)
        cover(ctx, s, i)


def tt0(s, l):
    r = C14.fd(s, l, np.zeros(1))
    return float((r[0] if isinstance(r, tuple) else r)[0])


def dist_to(links, cost, d):
    """Distance to *d* and, per node, the links that attain it."""
    dist = {d: 0.0}
    for _ in range(len(links) + 1):
        ch = False
        for lid, (a, b) in links.items():
            if b in dist and dist[b] + cost[lid] < dist.get(a, 1e300):
                dist[a] = dist[b] + cost[lid]
                ch = True
        if not ch:
            break
    return dist


def follow(links, cost, d, o):
    dist = dist_to(links, cost, d)
    if o not in dist:
        return None
    nodes = [o]
    while nodes[-1] != d:
        n = nodes[-1]
        t = [b for lid, (a, b) in links.items() if a == n and b in dist and dist[b] + cost[lid] <= dist[n] + 1e-9 * (1 + dist[n])]
        if len(t) != 1 or len(nodes) > 100:
            return "tie"
        nodes.append(t[0])
    return tuple(nodes)


def read(d):
    ps = [tuple(int(x) for x in r.split()) for r in open(os.path.join(d, "path_table")) if r.strip()]
    bs = [[float(x) for x in r.split()] for r in open(os.path.join(d, "path_table_buffer"))]
    return ps, bs


def sets(ctx, s, i):
    mc = s["kind"] == "mcdta"
    g = s["gen"]
    d = ctx.write(s, "g%d" % i)
    out = os.path.join(ctx.tmp, "go%d" % i)
    os.makedirs(out)
    ctx.mon.config(0)
    args = (g["it"], g["vot"], g["mid"], g["heavy"])
    # a path is kept when it is longer than the limit
    if not mc:  # not offered for a single class
        return
    o = ctx.mp.Mcdta.from_files(d)
    o.generate_shortest_pathsets(out, *args, g["minlen"])
    del o
    ctx.sig("%s %s" % (wl.shape(s), sorted(g.items())))
    ps, bs = read(out)
    w = s["max_interval"] * (2 if mc else 1)
    ctx.expect(len(ps) == len(bs) and all(b == [0.0] * w for b in bs), lambda: "the buffer of a generated path set is not %d zeros per path: %s" % (w, bs[:3]))
    L = {l[0]: l for l in s["links"]}
    links = {l[0]: (l[1], l[2]) for l in s["links"]}
    lid = {v: k for k, v in links.items()}
    on, dn = dict(map(tuple, s["origins"])), dict(map(tuple, s["dests"]))
    ods = {(on[r[0]], dn[r[1]]) for r in s["demand"]}
    toll = {k: float((s.get("toll") or {}).get(str(k), 0)) for k in links}
    t0 = {k: tt0(s, l) for k, l in L.items()}
    length = {k: l[4] * 1600.0 for k, l in L.items()}
    if mc:
        for k, l in L.items():
            if l[3] == "CTM":
                length[k] = max(length[k], l[5] * 1600 / 3600.0 * s["unit_time"])
    # every path: valid, for a demanded pair, long enough, once
    ctx.expect(len(set(ps)) == len(ps), lambda: "a path occurs twice in the generated set: %s" % [p for p in ps if ps.count(p) > 1][:1])
    bad = False
    for p in ps:
        ok = (p[0], p[-1]) in ods and all(e in lid for e in zip(p, p[1:])) and len(set(p)) == len(p)
        bad |= not ctx.expect(ok, lambda: "generated path %s is not a simple route of a demanded pair" % (p,))
    if bad:
        return
    plen = lambda p: sum(length[lid[e]] for e in zip(p, p[1:]))
    if any(abs(plen(p) - g["minlen"]) < 1e-6 for p in ps):
        return
    for p in ps:
        ctx.expect(plen(p) > g["minlen"], lambda: "path %s of %g m in a set of paths longer than %g m" % (p, plen(p), g["minlen"]))
    want = {od: [] for od in ods}
    cost = lambda k, f: g["vot"] * t0[k] * f + toll[k]
    free = {k: cost(k, 1.0) for k in links}
    mid, heavy = dict(free), dict(free)
    got = {od: set() for od in ods}
    for p in ps:
        got[(p[0], p[-1])].add(p)

    def add(od, p):
        if p not in want[od] and plen(p) > g["minlen"]:
            want[od].append(p)

    for od in ods:
        p = follow(links, free, od[1], od[0])
        if p == "tie":
            ctx.count("ties")
            return
        add(od, p)
        if plen(p) > g["minlen"]:
            ctx.expect(p in got[od], lambda: "the cheapest path %s of pair %s is missing (vot %g), got %s" % (p, od, g["vot"], sorted(got[od])))
    for _ in range(g["it"]):
        for v in want.values():
            for p in v:
                for e in zip(p, p[1:]):
                    mid[lid[e]] = cost(lid[e], g["mid"])
                    heavy[lid[e]] = cost(lid[e], g["heavy"])
        new = []
        for od in ods:
            for m in (mid, heavy):
                p = follow(links, m, od[1], od[0])
                if p == "tie":
                    ctx.count("ties")
                    return
                new.append((od, p))
        for od, p in new:
            add(od, p)
    ctx.count("path sets replayed")
    ctx.count("paths generated", len(ps))
    for od in ods:
        ctx.expect(set(want[od]) == got[od], lambda: "path set of %s after %d rounds is %s, expected %s" % (od, g["it"], sorted(got[od]), sorted(want[od])))


def cover(ctx, s, i):
    if s["routing"] == "Fixed":
        return
    mc = s["kind"] == "mcdta"
    rng = random.Random("C17c/%d" % s["seed"])
    d = ctx.write(s, "c%d" % i)
    ids = [l[0] for l in s["links"]]
    links = {l[0]: (l[1], l[2]) for l in s["links"]}
    lid = {v: k for k, v in links.items()}
    on, dn = dict(map(tuple, s["origins"])), dict(map(tuple, s["dests"]))
    ods = {(on[r[0]], dn[r[1]]) for r in s["demand"]}
    fft = {l[0]: tt0(s, l) for l in s["links"]}
    # distances by free-flow time, and which links lie on a route of a demanded pair
    to = {n[0]: dist_to(links, fft, n[0]) for n in s["nodes"]}
    able = {k for k, (a, b) in links.items() if any(q in to[a] and b in to[r] for q, r in ods)}
    reg = rng.sample(ids, rng.randint(1, len(ids)))
    if not mc and rng.random() < 0.8:
        reg = [k for k in reg if k in able] or [sorted(able)[0]]
    o = ctx.build(s, d, links=reg, cc=False)
    ctx.expect(sorted(o.links.tolist()) == sorted(ids), lambda: "links are %s, the network has %s" % (o.links, ids))
    ctx.expect(o.registered_links.tolist() == reg, lambda: "registered links are %s, not %s" % (o.registered_links, reg))
    pk = list(range(len(s["paths"])))
    if rng.random() < 0.4:
        pk = rng.sample(pk, rng.randint(1, len(pk)))
    o.register_paths(np.array(pk))
    inp = lambda k, paths: any(lid[e] == k for p in paths for e in zip(p, p[1:]))
    mine = [tuple(s["paths"][k][0]) for k in pk]
    on_path = [inp(k, mine) for k in reg]
    got = list(o.are_registered_links_in_registered_paths())
    ctx.expect([bool(x) for x in got] == on_path, lambda: "links %s are on the registered paths: %s, reported %s" % (reg, on_path, got))
    if mc:
        m = np.array(o.get_registered_links_coverage_in_registered_paths())
        e = [[int(inp(k, [p])) for k in reg] for p in mine]
        ctx.expect(m.tolist() == e, lambda: "coverage of links %s by the registered paths is %s, reported %s" % (reg, e, m.tolist()))
    new_links = None
    if mc and rng.random() < 0.5:
        new_links = rng.sample(ids, rng.randint(1, len(ids)))
        res = o.generate_paths_to_cover_links(np.array(new_links), rng.choice([1, 3, 10]))
        ctx.count("cover calls")
    else:
        ctx.count("cover calls")
        can = all(k in able or x for k, x in zip(reg, on_path))
        try:
            res = o.generate_paths_to_cover_registered_links()
        except RuntimeError as e:
            ctx.expect(not can and not mc, lambda: "covering the links %s failed although routes exist: %s" % (reg, e))
            return
        if not mc:
            ctx.expect(can, lambda: "links %s cannot all be covered, but no error" % reg)
    ps, bs = read(d)
    w = s["max_interval"] * (2 if mc else 1)
    left = list(range(len(ps)))
    lost = 0
    for p, b, _ in s["paths"]:
        for k in left:
            if ps[k] == tuple(p) and len(bs[k]) == len(b) and np.allclose(bs[k], b, atol=2e-6, rtol=2e-7):
                left.remove(k)
                break
        else:
            lost += 1
            gone = (p, b, [x for x in zip(ps, bs) if x[0] == tuple(p)])
    ctx.expect(lost == 0, lambda: "%d of the %d paths of the table are gone after paths were added: %s" % (lost, len(s["paths"]), gone))
    new = [ps[k] for k in left]
    ctx.count("paths added to cover links", len(new))
    for k in left:
        p = ps[k]
        ok = (p[0], p[-1]) in ods and all(e in lid for e in zip(p, p[1:])) and bs[k] == [0.0] * w
        if not ctx.expect(ok, lambda: "added path %s (flows %s) is not a route of a demanded pair without flow" % (p, bs[k])):
            return
        c = sum(fft[lid[e]] for e in zip(p, p[1:]))
        best = 1e300
        for q in new_links or [q for q, x in zip(reg, on_path) if not x]:
            a, b = links[q]
            if inp(q, [p]) and p[0] in to[a] and b in to[p[-1]]:
                best = min(best, abs(to[a][p[0]] + fft[q] + to[p[-1]][b] - c))
        ctx.expect(best < 1e-6, lambda: "added path %s is not a shortest route through a link to cover" % (p,))
    if new_links is not None:
        for k, r in zip(new_links, res):
            e = sum(inp(k, [p]) for p in new)
            ctx.expect(r == e, lambda: "%d added paths use link %d, reported %d" % (e, k, r))
            ctx.expect(k not in able or r > 0 or inp(k, [tuple(p[0]) for p in s["paths"]]), lambda: "link %d lies on a route but got no path" % k)
        ctx.expect(len(set(ps)) == len(ps), "an added path was in the table before")
    else:
        ctx.expect(res[0] == int(not all(on_path)), lambda: "path table updated: reported %s, links on paths before: %s" % (res[0], on_path))
        e = [int(x or k in able) for k, x in zip(reg, on_path)]
        ctx.expect(list(res[1:]) == e, lambda: "links %s coverable: %s, reported %s" % (reg, e, list(res[1:])))
        if res[0]:
            now = [bool(x) for x in o.are_registered_links_in_registered_paths()]
            ctx.expect(now == [bool(x) for x in e], lambda: "after covering, links %s on registered paths: %s, expected %s" % (reg, now, e))
        for k, x in zip(reg, e):
            ctx.expect(not x or inp(k, mine + new), lambda: "link %d is reported covered but on no path" % k)
    # the table written is one the program can load again
    n = len(ps)
    cf = os.path.join(d, "config.conf")
    conf = re.sub(r"(?m)^num_path\s*=.*$", "num_path = %d" % n, open(cf).read())
    open(cf, "w").write(conf)
    o = ctx.build(s, d, links=reg, cc=False)
    o.register_paths(np.arange(n))
    got = [bool(x) for x in o.are_registered_links_in_registered_paths()]
    ctx.expect(got == [inp(k, ps) for k in reg], lambda: "read back, links %s are on a path: %s" % (reg, got))
    o.run_whole()
    ctx.count("path tables read back")
