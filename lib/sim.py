"""Helpers that run inside a worker process."""
import os
import shutil
import sys
import tempfile

import numpy as np

import mmnet
import net
import trace as vtrace


class Refused(Exception):
    pass


class Ctx:
    """What a case may use: the real package, the monitor, a scratch directory."""

    def __init__(self, so, mon_ok):
        import macposts
        import _macposts_ext as ext
        self.mp = macposts
        self.ext = ext
        self.so = so
        self.mon = vtrace.Monitor(so)
        self.mon.ok = self.mon.ok and mon_ok
        self.tmp = tempfile.mkdtemp(prefix="vcase")
        self.viol = []
        self.obs = {}
        self.sigs = set()

    # -- reporting
    def fail(self, msg):
        if len(self.viol) < 20:
            self.viol.append(msg)

    def expect(self, cond, msg):
        self.count("checks")
        if not cond:
            self.fail(msg() if callable(msg) else msg)
        return bool(cond)

    def count(self, key, n=1):
        self.obs[key] = self.obs.get(key, 0) + int(n)

    def sig(self, s):
        self.sigs.add(str(s))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- running
    def write(self, scen, name="net"):
        d = os.path.join(self.tmp, name)
        return (mmnet if scen["kind"] == "mmdta" else net).write(scen, d)

    def build(self, scen, d=None, cc=True, tree=False, flags=1, links=None, seed=True):
        """An initialised instance with curves installed on *links* (all)."""
        if d is None:
            d = self.write(scen)
        self.mon.config(flags)
        if seed:
            self.mp.set_random_state(scen["seed"] % (2 ** 31))
        cls = self.mp.Dta if scen["kind"] == "dta" else self.mp.Mcdta
        o = cls.from_files(d)
        all_links = sorted(l[0] for l in scen["links"])
        o.register_links(np.array(all_links if links is None else links, dtype=int))
        if cc:
            o.install_cc()
        if tree:
            o.install_cc_tree()
        return o

    def load(self, scen, d=None, cc=True, tree=False, flags=1, links=None, **kw):
        o = self.build(scen, d, cc, tree, flags, links)
        self.mon.reset()
        o.run_whole(**kw)
        return o


def out_links(scen):
    r = {}
    for l in scen["links"]:
        r.setdefault(l[1], set()).add(l[0])
    return r


def link_map(scen):
    return {l[0]: l for l in scen["links"]}


def step_curve(cc, n):
    """Piecewise-constant curve (k,2) -> values at ticks 0..n."""
    r = np.zeros(n + 1)
    t = cc[:, 0]
    v = cc[:, 1]
    idx = np.searchsorted(t, np.arange(n + 1) + 1e-9, side="right") - 1
    ok = idx >= 0
    r[ok] = v[idx[ok]]
    return r
