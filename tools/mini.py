"""Small helpers of the demonstrations: a network on disk, loaded by the real package."""
import os
import sys

import numpy as np

import macposts
import net

WORK = sys.argv[1] if len(sys.argv) > 1 else "."
_n = [0]


def load(s, seed=1, cc=True, tree=False, run=True):
    _n[0] += 1
    d = net.write(s, os.path.join(WORK, "n%d" % _n[0]))
    macposts.set_random_state(seed)
    o = (macposts.Dta if s["kind"] == "dta" else macposts.Mcdta).from_files(d)
    o.register_links(np.array(sorted(l[0] for l in s["links"])))
    if cc:
        o.install_cc()
    if tree:
        o.install_cc_tree()
    if run:
        o.run_whole()
    return o


def base(kind, nodes, links, origins, dests, demand, paths, routing="Fixed", **kw):
    """nodes [[id, type]], links [[id, a, b, type, len, ffs, cap, rhoj, lanes]], paths [[nodes], shares]."""
    mc = kind == "mcdta"
    by = {(l[1], l[2]): l[0] for l in links}
    s = dict(kind=kind, unit_time=5, assign_frq=12, max_interval=len(demand[0][2]), total_interval=-1, flow_scalar=1,
             nodes=[n + [1.5] if len(n) == 2 else n for n in nodes],
             links=[l + ([l[5], l[6], l[7], 1.5] if mc and len(l) == 9 else []) for l in links],
             origins=origins, dests=dests, demand=demand, routing=routing, route_frq=12, fixed_route_frq=12,
             init_demand_split=1, seed=1,
             paths=[[p, sh, [by[a, b] for a, b in zip(p, p[1:])]] for p, sh in paths])
    s.update(kw)
    return s


def check(ok, msg):
    if not ok:
        print("FAILED:", msg)
        sys.exit(1)
