"""Emission statistics against the vehicles and travel times seen at every interval."""
import importlib.util
import os
import random
import re

import numpy as np
import oracle
import wl

HERE = os.path.dirname(os.path.abspath(__file__))


def mod(name):
    spec = importlib.util.spec_from_file_location("m" + name, os.path.join(HERE, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


C03 = mod("C03")
RULE = ("one evaluation = 3 scenarios; fuel, pollutants, miles, hours and trips on the observed links are accumulated from the vehicles on each link and its travel time "
        "as the monitor saw them at every interval; distinct = scenario shapes and sets of observed links")
ASSUMPTIONS = ["scenarios in which vehicles wait in front of an observed link are judged on the number of trips only"]
TIMEOUT = 120
SINGLE = wl.SINGLE + [dict(total_interval=70, load=60, tight=True), dict(ltypes=["LQ"], load=60), dict(ltypes=["CTM"], load=60), dict(ltypes=["PQ"], load=30)]
MULTI = wl.MULTI + [dict(total_interval=70, load=90, tight=True), dict(ltypes=["LQ"], load=60), dict(ltypes=["CTM"], load=60, conv=2.0)]

FUEL = [1.19102380e-07, -2.67383161e-05, 2.35409750e-03, -1.11752399e-01, 2.96137050, -1.51623933]
HC = [1.61479076909784e-13, -1.27884474982285e-10, 2.92924270300974e-8, -3.23670086149171e-6, 0.000201135990745703, -0.00737871178398462,
      0.15792241257931, -1.82687242201925, 9.84559996919605]
CO = [-1.08317411174986e-12, 2.53340626614398e-10, -2.12944112670644e-8, 5.97070024385679e-7, 1.79281854904105e-5, -0.00170366500109581,
      0.047711166912908, -0.615061016205463, 4.12900319568868]
NOX = [-6.52009367269462e-13, 1.25335312366681e-10, -4.67202313364846e-9, -6.63892272105462e-7, 8.01942113220463e-5, -0.00374632777368871,
       0.0895029037098895, -1.07265851515536, 6.06514023873933]
# trucks against cars below 25, below 55 and from 55 miles per hour
TRUCK = dict(fuel=(1.53, 1.50, 1.55), CO2=(1.53, 1.50, 1.55), HC=(1.87, 2.41, 2.01), CO=(3.97, 2.67, 5.01), NOX=(7.32, 6.03, 5.75))


def gen(tier, seed):
    n = 600 if tier == "quick" else 1500
    out = []
    for kind, var in (("dta", SINGLE), ("mcdta", MULTI)):
        ss = wl.scenarios(seed, n, kind, "C21", var)
        for i, s in enumerate(ss):
            rng = random.Random("C21/%s/%d/%d" % (kind, seed, i))
            if rng.random() < 0.75:
                C03.labels(s, rng)
            ids = [l[0] for l in s["links"]]
            obs = rng.sample(ids, rng.choice([1, len(ids) // 2, len(ids)]))
            s["obs"] = obs
            if rng.random() < 0.2:      # a link named twice counts once
                obs = obs + [obs[0]]
            s.setdefault("files", {})["MNM_input_emission_linkID"] = "".join("%d\n" % k for k in obs)
            ev = [rng.choice([0, 1, 2]), rng.choice([0, 1, 2])]
            s["ev"] = ev
            if rng.random() < 0.15:
                s["ev"] = [-2, -2]
            else:
                s["conf"] = dict(s.get("conf", {}), **(dict(ev_label=ev[0]) if kind == "dta" else dict(ev_label_car=ev[0], ev_label_truck=ev[1])))
        out += wl.chunks(ss, 3)
    return out


def run(ctx, case):
    for i, s in enumerate(case["scens"]):
        one(ctx, s, ctx.write(s, "n%d" % i))


def rates(v):
    pos = lambda c: np.maximum(np.polyval(c, v), 0)
    f = np.maximum(1.0 / np.polyval(FUEL, v), 0)
    return dict(fuel=f, CO2=8887 * f, HC=pos(HC), CO=pos(CO), NOX=pos(NOX))


def one(ctx, s, d):
    mc = s["kind"] == "mcdta"
    o = ctx.load(s, d, flags=3)
    ctx.sig("%s %d" % (wl.shape(s), len(s["obs"])))
    segs = ctx.mon.segments()
    if not segs:
        return
    seg = segs[0]
    txt = o.print_emission_stats()
    num = lambda part: {k.strip(): float(x) for k, x in re.findall(r"([A-Za-z0-9 ]+): (-?[0-9.]+(?:e[-+]?\d+)?|-?nan|-?inf)", part)}
    if mc:
        a, b = txt.index("for cars"), txt.index("for trucks")
        got = [num(txt[a:b].split("\n", 1)[1]), num(txt[b:].split("\n", 1)[1])]
    else:
        got = [num(txt.split("\n", 1)[1])]
    T = o.get_cur_loading_interval()
    h = oracle.History(s, seg)
    sc, unit = s["flow_scalar"], s["unit_time"]
    obs = {k: i for i, k in enumerate(s["obs"])}
    cnt = np.zeros((2, 2, len(obs), T + 2))     # class, electric, link, change at interval
    trips = [0, 0]
    for v in seg.veh.values():
        hit = False
        e = int(v.label == s["ev"][v.cls])
        for l, a, b in h.visits[v.id]:
            if l in obs:
                hit = True
                cnt[v.cls, e, obs[l], a] += 1
                if b is not None:
                    cnt[v.cls, e, obs[l], b] -= 1
        trips[v.cls] += hit
    if mc:
        for c in (0, 1):
            ctx.expect(got[c]["number of trips"] == trips[c], lambda: "%d %s used the observed links, reported %g" % (
                trips[c], ("cars", "trucks")[c], got[c]["number of trips"]))
            ctx.count("trips", trips[c])
    cnt = cnt.cumsum(axis=3)[:, :, :, :T] / sc
    r = seg.link
    r = r[np.isin(r[:, 2], s["obs"])]
    if (r[:, 7] > 0).any():
        ctx.count("scenarios with vehicles waiting at an observed link")
        return
    tt = np.full((len(obs), T), np.nan)
    tt[[obs[k] for k in r[:, 2]], r[:, 1]] = r[:, 8] / 1e6
    L = {l[0]: l for l in s["links"]}
    ln = []
    for k in s["obs"]:
        l = L[k]
        x = l[4] * 1600.0
        if mc and l[3] == "CTM":
            x = max(x, l[5] * 1600 / 3600.0 * unit)
        ln.append(x)
    if not ctx.expect(np.isfinite(tt).all(), "an observed link has no recorded state"):
        return
    v = np.array(ln)[:, None] / tt
    mph = v * 3600 / 1600
    cv = np.clip(mph, 5, 65)
    miles = v * unit / 1600
    R = rates(cv)
    near = (np.abs(cv - 25) < 1e-3) | (np.abs(cv - 55) < 1e-3)
    band = (cv >= 25).astype(int) + (cv >= 55)
    for c in range(2 if mc else 1):
        non, ev = cnt[c] if mc else cnt[:, :, :, :].sum(axis=0)
        name = ("cars", "trucks")[c] if mc else "vehicles"
        exp = {}
        slack = {}
        loose = 1e-7 + 2e-6 / tt       # travel times are recorded in microseconds
        for k, x in R.items():
            if c == 1:
                f = np.array(TRUCK[k])
                x = x * f[band]
            exp[k] = float((x * miles * non).sum())
            slack[k] = float((x * miles * non * loose).sum())
            if c == 1:
                slack[k] += float((x * miles * non * near).sum())
        pre = "Total VMT" if not mc else "Total %s VMT" % ("Car", "Truck")[c]
        exp[pre] = float((miles * (non + ev)).sum())
        slack[pre] = slack[pre.replace("Total", "EV")] = float((miles * (non + ev) * loose).sum())
        exp[pre.replace("Total", "EV")] = float((miles * ev).sum())
        if mc:
            exp["VHT"] = float((non + ev).sum() * unit / 3600)
        for k, e in exp.items():
            g = got[c].get(k)
            if not ctx.expect(g is not None, lambda: "no %s of %s in %r" % (k, name, txt)):
                continue
            ctx.expect(abs(g - e) <= 2e-6 + 1e-7 * abs(e) + slack.get(k, 0), lambda: "%s of %s on links %s: reported %.8g, expected %.8g" % (k, name, s["obs"], g, e))
            ctx.count("numbers compared")
            ctx.count("nonzero numbers", int(e > 0))
