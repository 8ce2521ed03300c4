"""Workloads: seeded lists of scenarios for the checks."""
import random

import net


def scenarios(seed, n, kind, salt="", variants=None, **o):
    """*n* scenarios; *variants* is a list of override dicts used in turn."""
    out = []
    for i in range(n):
        rng = random.Random("%s/%s/%d/%d" % (salt, kind, seed, i))
        ov = dict(o)
        if variants:
            ov.update(variants[i % len(variants)])
        out.append(net.gen(rng, kind, **ov))
    return out


def chunks(scens, k, **extra):
    """Group scenarios so that one worker process runs several."""
    r = []
    for i in range(0, len(scens), k):
        r.append(dict(scens=scens[i:i + k], **extra))
    return r


def shape(s):
    """What makes a scenario different from another, for the coverage counts."""
    return "%s n%d l%d %s %s a%d x%g od%d" % (
        s["kind"], len(s["nodes"]), len(s["links"]), s["routing"],
        "".join(sorted({l[3][0] for l in s["links"]})), s["assign_frq"], s["flow_scalar"],
        len(s["demand"]))


SINGLE = [
    dict(routing="Adaptive"), dict(routing="Fixed"), dict(routing="Hybrid"),
    dict(ltypes=["CTM"], tight=True, load=40), dict(ltypes=["LQ"], tight=True, load=40),
    dict(ltypes=["PQ"], load=40), dict(junctions=["GRJ"]), dict(junctions=["FWJ", "GRJ"], tight=True, load=40),
    dict(flow_scalar=1, frac=True, load=8), dict(total_interval=70, load=40),
    dict(inner=1, nO=2, nD=2), dict(inner=8, nO=3, nD=3, load=40, tight=True),
    dict(routing="Adaptive", parallel=True, load=40),
]
MULTI = [
    dict(routing="Adaptive"), dict(routing="Fixed"), dict(routing="Hybrid"), dict(routing="Biclass_Hybrid"),
    dict(ltypes=["CTM"], tight=True, load=60), dict(ltypes=["LQ"], tight=True, load=60),
    dict(flow_scalar=1, nmin=1, load=12), dict(total_interval=70, load=60),
    dict(inner=1, nO=2, nD=2), dict(inner=8, nO=3, nD=3, load=60, tight=True),
    dict(nmin=5, max_interval=3, load=100, tight=True, flow_scalar=2), dict(init_demand_split=0),
    dict(routing="Adaptive", parallel=True, load=40),
]
