"""Histories of travellers in a multimodal loading, and the models they are judged by."""
import math

import numpy as np

import oracle


class MM(oracle.History):
    def __init__(self, scen, seg):
        oracle.History.__init__(self, scen, seg)
        m = scen["mm"]
        self.tl = {l["id"]: l for l in m["tl"]}
        self.virt = {v[0]: v for v in m["virt"]}
        self.phys = {p[0]: p for p in m["phys"]}
        self.routes = {b["route"]: b for b in m["buses"]}
        self.board = {l["b"]: l["id"] for l in m["tl"] if l["kind"] == "boarding"}     # stop -> link
        self.alight = {l["a"]: l["id"] for l in m["tl"] if l["kind"] == "alighting"}
        self.bridge = {(l["a"], l["b"]): l["id"] for l in m["tl"] if l["kind"] == "boarding"}
        self.walks = {}       # passenger -> [(link, t_in, t_out or None)]
        self.rides = {}       # passenger -> [(t, bus vehicle or -1)]
        for p in seg.pax.values():
            ch, last = [], None
            ride, lastb = [], None
            for t, cur, nx, path, bus, places, where in p.moves:
                if cur != last:
                    # somebody who boards in the interval of arriving is never seen waiting
                    if last is not None and last in self.tl and cur in self.tl and self.tl[last]["b"] != self.tl[cur]["a"]:
                        br = self.bridge.get((self.tl[last]["b"], self.tl[cur]["a"]))
                        if br is not None:
                            ch.append((t, br))
                    ch.append((t, cur))
                    last = cur
                if bus != lastb:
                    ride.append((t, bus))
                    lastb = bus
            if p.gone is not None:
                ch.append((p.gone, -1))
            self.walks[p.id] = [(c, t, nx[0] if nx else None)
                                for (t, c), nx in zip(ch, ch[1:] + [None]) if c >= 0]
            self.rides[p.id] = ride

    def transit_curves(self):
        n = self.T + 1
        r = {l: (np.zeros(n), np.zeros(n)) for l in self.tl}
        for ws in self.walks.values():
            for l, a, b in ws:
                if l not in r:
                    continue
                if a + 1 < n:
                    r[l][0][a + 1:] += 1
                if b is not None and b + 1 < n:
                    r[l][1][b + 1:] += 1
        return {l: (x / self.scalar, y / self.scalar) for l, (x, y) in r.items()}


def split(s, x):
    """Minutes of a column -> what is released then (before the scalar)."""
    pm = int(60 / s["unit_time"])
    m = s["assign_frq"] // pm
    if s["init_demand_split"] == 0:
        return {0: x}
    for k in range(m, 0, -1):
        if math.floor(x / k * s["flow_scalar"]) >= 1:
            return {p: x / k for p in range(k)}
    return {}


def schedule(s):
    """(kind, o node, d node, route) -> {tick: real number of travellers}"""
    on = {r[0]: r[1] for r in s["origins"]}
    dn = {r[0]: r[1] for r in s["dests"]}
    pm = int(60 / s["unit_time"])
    m = s["assign_frq"] // pm
    out = {}

    def add(kind, o, d, route, vec):
        e = out.setdefault((kind, o, d, route), {})
        for j, x in enumerate(vec):
            for p, y in split(s, x).items():
                e[(j * m + p) * pm] = y * s["flow_scalar"]

    for r in s["demand"]:
        add("car", on[r[0]], dn[r[1]], -1, r[2])
        add("truck", on[r[0]], dn[r[1]], -1, r[3])
    mm = s["mm"]
    for r in mm["pnr_demand"]:
        add("pnr", on[r[0]], dn[r[1]], -1, r[2])
    for r in mm["bt_demand"]:
        add("passenger", on[r[0]], dn[r[1]], -1, r[2])
    if mm["explicit"]:
        for b in mm["buses"]:
            add("bus", b["o"], b["d"], b["route"], b["demand"])
    return out


def kind(v):
    if v.cls == 0:
        return "pnr" if v.pnr else "car"
    return "bus" if v.bus != -1 else "truck"


def column(s, t):
    """The share column in force for somebody released at tick t."""
    return min(t // s["fixed_route_frq"], 2 * s["max_interval"] - 1)
