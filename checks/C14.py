"""Recorded statistics: volumes and travel times in the record files."""
import os
import random

import numpy as np
import oracle
import wl

RULE = ("one evaluation = 3 scenarios; every number in every statistics file is recomputed from the vehicles the monitor saw "
        "on the links; distinct = scenario shapes x recording settings")
ASSUMPTIONS = ["the row labelled -1 is the empty network", "travel times in these files are the fundamental-diagram estimates for the volume on the link"]
TIMEOUT = 90


def gen(tier, seed):
    n = 240 if tier == "quick" else 2400
    out = []
    for kind, var in (("dta", wl.SINGLE), ("mcdta", wl.MULTI)):
        ss = wl.scenarios(seed, n, kind, "C14", var)
        for i, s in enumerate(ss):
            rng = random.Random("C14t/%s/%d/%d" % (kind, seed, i))
            s["stat"] = dict(rec_mode_para=rng.choice([1, 2, 3, 5, s["assign_frq"], 180]),
                             volume_load_automatic_rec=rng.randint(0, 1), volume_record_automatic_rec=rng.randint(0, 1),
                             tt_load_automatic_rec=rng.randint(0, 1), tt_record_automatic_rec=rng.randint(0, 1))
            if s["routing"] == "Fixed":
                s["stat"]["rec_volume"] = rng.choice([0, 1, 1, 1])
        out += wl.chunks(ss, 3)
    return out


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def fd(s, l, n, cls=0, total=False):
    """Travel time (s) of a link of type PQ, CTM or LQ with *n* vehicles on it."""
    mc = s["kind"] != "dta"
    ffs, cap, rj = (l[5], l[6], l[7]) if cls == 0 else (l[9], l[10], l[11])
    ffs, cap, rj = ffs * 1600 / 3600.0, cap / 3600.0, rj / 1600.0
    ln = l[4] * 1600.0
    if mc and l[3] == "PQ":
        return np.full(n.shape, ln / (l[5] * 1600 / 3600.0))
    if l[3] == "CTM":
        rj, cap = min(rj, (400 if mc else 300) / 1600.0), min(cap, 3500 / 3600.0)
        if mc and ln < l[5] * 1600 / 3600.0 * s["unit_time"]:
            ln = l[5] * 1600 / 3600.0 * s["unit_time"]
    if mc:
        cap = max(cap, 1.0 / (s["unit_time"] * s["flow_scalar"] * l[8]))
    rho = n / l[8] / ln
    rk = cap / ffs
    lo = (0.001 if l[3] == "CTM" else 2.220446049250313e-16) * ffs
    with np.errstate(divide="ignore", invalid="ignore"):
        v = np.maximum(lo, cap * (rj - rho) / (rj - rk) / rho)
    t = ln / np.where(rho <= rk, ffs, v)
    return np.where(rho >= rj, 3600.0, t), (np.abs(rho - rj) < 1e-9 * rj) | (np.abs(rho - rk) < 1e-9 * rk)


def table(ctx, fn, ids):
    rows = [x.split() for x in open(fn).read().split("\n") if x]
    head = rows[0]
    ctx.expect(head[0] == "Interval" and sorted(map(int, head[1:])) == sorted(ids), "%s: header %s" % (os.path.basename(fn), head))
    return [int(x) for x in head[1:]], [int(r[0]) for r in rows[1:]], np.array([[float(x) for x in r[1:]] for r in rows[1:]])


def one(ctx, s, d):
    st = s["stat"]
    o = ctx.load(s, d)
    ctx.sig("%s %s" % (wl.shape(s), st))
    T = o.get_cur_loading_interval()
    del o
    segs = ctx.mon.segments()
    if not segs:
        return
    files(ctx, s, d, T, oracle.History(s, segs[0]))


def files(ctx, s, d, T, h):
    mc = s["kind"] != "dta"
    st = s["stat"]
    n = st["rec_mode_para"]
    ids = [l[0] for l in s["links"]]
    L = {l[0]: l for l in s["links"]}
    vol = {}
    for suf, cls in (("", None), ("_car", 0), ("_truck", 1)) if mc else (("", None),):
        c = h.curves(cls)
        vol[suf] = {l: c[l][0] - c[l][1] for l in ids}     # index t+1: on the link at the end of interval t
    rec = os.path.join(d, "record")
    for what in ("volume", "tt"):
        for kind in ("load", "record"):
            on = st["%s_%s_automatic_rec" % (what, kind)] and st.get("rec_" + what, 1)
            for suf in vol:
                fn = os.path.join(rec, "MNM_output_%s_interval_%s%s" % (kind, what, suf))
                if not on:
                    ctx.expect(not os.path.exists(fn), "%s written although recording is off" % os.path.basename(fn))
                    continue
                if not ctx.expect(os.path.exists(fn), "%s is missing" % os.path.basename(fn)):
                    continue
                head, ts, m = table(ctx, fn, ids)
                if kind == "load":
                    want_t = list(range(-1, T))
                else:
                    want_t = [t for t in range(-1, T) if t == 0 or t % n == 0]
                if not ctx.expect(ts == want_t, lambda: "%s: intervals %s, expected %s" % (os.path.basename(fn), ts[:6] + ["..."] + ts[-3:], want_t[:6] + ["..."] + want_t[-3:])):
                    continue
                for c, l in enumerate(head):
                    v = vol[suf][l]
                    edge = None
                    if what == "tt":
                        v = fd(s, L[l], v, 1 if suf == "_truck" else 0)
                        if isinstance(v, tuple):
                            v, edge = v
                    if kind == "load":
                        e = v
                        bad = edge if edge is not None else np.zeros(len(e), bool)
                    else:
                        e = np.array([v[t + 1] if t <= 0 else v[t + 1 - n + 1:t + 2].mean() for t in ts])
                        bad = np.array([edge is not None and bool(edge[max(0, t + 1 - n + 1):t + 2].any()) for t in ts])
                    diff = np.abs(m[:, c] - e) - 2e-6 - 1e-6 * np.abs(e)
                    diff[bad] = -1
                    k = int(np.argmax(diff))
                    ctx.expect(diff[k] <= 0, lambda: "%s: link %d (%s) at %d: %.6f, expected %.6f" % (os.path.basename(fn), l, L[l][3], ts[k], m[k, c], e[k]))
                    ctx.count("numbers", len(e))
                ctx.count("files")
    left = [f for f in os.listdir(rec)]
    ctx.count("other_files", sum(not f.startswith("MNM_output_") for f in left))
