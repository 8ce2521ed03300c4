"""Vehicles drive connected routes, their own path, to their own destination."""
import random

import oracle
import wl

RULE = ("one evaluation = 4 scenarios; the chain of links of every vehicle, reconstructed from the monitor, is compared "
        "with the network and with the path table; distinct = scenario shapes")
ASSUMPTIONS = ["vehicles with pre-trip routing follow a path of the table; en-route ones any connected chain"]
TIMEOUT = 60


def gen(tier, seed):
    n = 240 if tier == "quick" else 3000
    out = []
    for kind, var in (("dta", wl.SINGLE), ("mcdta", wl.MULTI)):
        var = var + [dict(routing="Fixed", tight=True, load=60, npaths=8), dict(routing="Hybrid", load=40, npaths=8),
                     dict(routing="Fixed", ltypes=["PQ"], load=30, inner=7, npaths=10)]
        ss = wl.scenarios(seed, n, kind, "C06", var)
        for i, s in enumerate(ss):
            # the order of the path table must not matter
            random.Random("C06t/%d/%d" % (seed, i)).shuffle(s["paths"])
        out += wl.chunks(ss, 4)
    return out


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def one(ctx, s, d):
    ctx.load(s, d)
    ctx.sig(wl.shape(s))
    for seg in ctx.mon.segments():
        h = oracle.History(s, seg)
        oracle.route(ctx, h)
        table = {}
        for nodes, _b, links in s["paths"]:
            table.setdefault((nodes[0], nodes[-1]), set()).add(tuple(links))
        fixed = s["routing"] != "Adaptive"
        for v in seg.veh.values():
            if not fixed:
                continue
            nos = {m[3] for m in v.moves if m[3] >= 0}
            ctx.expect(len(nos) == 1, lambda: "vehicle %d was assigned %d paths" % (v.id, len(nos)))
            if len(nos) != 1:
                continue
            p = tuple(seg.paths[next(iter(nos))])
            ctx.expect(p in table.get((v.o, v.d), ()), lambda: "vehicle %d from %d to %d was given path %s, which is not in the table for them" % (v.id, v.o, v.d, p))
            if v.type == 1:
                got = tuple(l for l, _a, _b in h.visits[v.id])
                ctx.expect(got == p[:len(got)], lambda: "vehicle %d on path %s drove %s" % (v.id, p, got))
                if v.gone is not None:
                    ctx.expect(got == p, lambda: "vehicle %d on path %s finished after %s" % (v.id, p, got))
                ctx.count("paths_followed")
            else:
                ctx.count("adaptive_routes")
