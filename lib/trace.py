"""Decode the monitor's event log (mon/vmon.cpp) into histories."""
import ctypes
import numpy as np

(START, CREATE, MOVE, GONE, COUNT, LINK, _, PATH, PNR, PCREATE, PMOVE, PGONE, PCOUNT, BUS, LOT,
 STRAY) = range(16)


class Veh:
    __slots__ = ("id", "o", "d", "cls", "type", "start", "assign", "label", "seen",
                 "moves", "gone", "paths", "inner_id", "bus", "pnr", "stops")

    def links(self):
        """[(t, link)] for every link entered, in order."""
        r = []
        last = None
        for t, cur, _n, _p in self.moves:
            if cur != last:
                if cur >= 0:
                    r.append((t, cur))
                last = cur
        return r


class Pax:
    """A traveller outside a car: moves are (t, link, next, path, bus, places, where)."""
    __slots__ = ("id", "o", "d", "pnr", "type", "start", "assign", "lot", "seen", "moves", "gone")


class Segment:
    """One loading of one simulation instance."""

    def __init__(self, hdr):
        self.assign_freq = int(hdr[3])
        self.total_assign = int(hdr[4])
        self.unit = hdr[5] / 1e6
        self.scalar = hdr[6] / 1e6
        self.first = int(hdr[1])
        self.veh = {}
        self.count = []      # (t, created, enroute, finished, total_time)
        self.paths = {}      # no -> [links]
        self.link = None     # array of link state rows
        self.dup = 0
        self.pax = {}        # passengers
        self.pcount = []     # (t, created, enroute, finished, total_time, pnr: created, enroute, finished,
                             #  buses created, finished, pnr cars created)
        self.lots = {}       # lot -> [(t, parked, occupancy)]
        self.stray = []


class Monitor:
    def __init__(self, so):
        self.lib = ctypes.CDLL(so)
        try:
            self.lib.vmon_data.restype = ctypes.POINTER(ctypes.c_int64)
            self.lib.vmon_rows.restype = ctypes.c_int64
            self.ok = True
            try:
                self.mm = bool(self.lib.vmon_multimodal())
            except AttributeError:
                self.mm = False
        except AttributeError:
            self.ok = False
            self.mm = False

    def config(self, flags):
        if self.ok:
            self.lib.vmon_config(flags)

    def reset(self):
        if self.ok:
            self.lib.vmon_reset()

    def rows(self):
        if not self.ok:
            return np.zeros((0, 12), dtype=np.int64)
        n = self.lib.vmon_rows()
        if n == 0:
            return np.zeros((0, 12), dtype=np.int64)
        return np.ctypeslib.as_array(self.lib.vmon_data(), shape=(n * 12,)).reshape(n, 12).copy()

    def segments(self):
        return decode(self.rows())


def decode(rows):
    segs = []
    if len(rows) == 0:
        return segs
    starts = np.nonzero(rows[:, 0] == START)[0].tolist() + [len(rows)]
    for a, b in zip(starts, starts[1:]):
        s = Segment(rows[a])
        part = rows[a:b]
        s.link = part[part[:, 0] == LINK]
        for r in part[part[:, 0] != LINK].tolist():
            k = r[0]
            if k == MOVE:
                s.veh[r[2]].moves.append((r[1], r[3], r[4], r[5]))
            elif k == CREATE:
                if r[2] in s.veh:
                    s.dup += 1
                v = Veh()
                v.id, v.o, v.d, v.cls, v.type = r[2:7]
                v.start, v.assign, v.label, v.inner_id, v.bus = r[7:12]
                v.seen = r[1]
                v.moves = []
                v.gone = None
                v.pnr = False
                v.stops = []          # buses: (t, stop, stopped intervals, aboard, stops at once)
                s.veh[v.id] = v
            elif k == GONE:
                s.veh[r[2]].gone = r[1]
            elif k == COUNT:
                s.count.append((r[1], r[2], r[3], r[4], r[5] / 1e6))
            elif k == PATH:
                s.paths.setdefault(r[2], []).append(r[4])
            elif k == PNR:
                s.veh[r[2]].pnr = True
            elif k == PCREATE:
                if r[2] in s.pax:
                    s.dup += 1
                p = Pax()
                p.id, p.o, p.d, p.pnr, p.type, p.start, p.assign, p.lot = r[2:10]
                p.seen = r[1]
                p.moves = []
                p.gone = None
                s.pax[p.id] = p
            elif k == PMOVE:
                s.pax[r[2]].moves.append((r[1], r[3], r[4], r[5], r[6], r[7], r[8]))
            elif k == PGONE:
                s.pax[r[2]].gone = r[1]
            elif k == PCOUNT:
                s.pcount.append((r[1], r[2], r[3], r[4], r[5] / 1e6) + tuple(r[6:12]))
            elif k == BUS:
                if r[2] in s.veh:
                    s.veh[r[2]].stops.append((r[1], r[3], r[4], r[5], r[6]))
            elif k == LOT:
                s.lots.setdefault(r[2], []).append((r[1], r[3], r[4] / 1e6))
            elif k == STRAY:
                s.stray.append(tuple(r[1:6]))
        segs.append(s)
    return segs
