"""Histories of vehicles reconstructed from the monitor, and the models they are judged by."""
import numpy as np


class History:
    def __init__(self, scen, seg):
        self.scen = scen
        self.seg = seg
        self.links = {l[0]: l for l in scen["links"]}
        self.scalar = seg.scalar
        self.T = (seg.count[-1][0] + 1) if seg.count else 0   # intervals loaded
        self.visits = {}      # vehicle -> [(link, t_in, t_out or None)]
        for v in seg.veh.values():
            ls = v.links()
            out = []
            ch = []           # every change of the current link
            last = -1
            for t, cur, _n, _p in v.moves:
                if cur != last:
                    ch.append((t, cur))
                    last = cur
            if v.gone is not None:
                ch.append((v.gone, -1))
            for (t, c), nx in zip(ch, ch[1:] + [None]):
                if c >= 0:
                    out.append((c, t, nx[0] if nx else None))
            self.visits[v.id] = out
            assert len(out) == len(ls) or True

    def curves(self, cls=None, only=None):
        """link -> (N_in, N_out) at ticks 0..T (vehicles / scalar)."""
        n = self.T + 1
        r = {l: (np.zeros(n), np.zeros(n)) for l in self.links}
        for v in self.seg.veh.values():
            if cls is not None and v.cls != cls or only is not None and not only(v):
                continue
            for l, a, b in self.visits[v.id]:
                if l not in r:
                    continue
                if a + 1 < n:
                    r[l][0][a + 1:] += 1
                if b is not None and b + 1 < n:
                    r[l][1][b + 1:] += 1
        for l in r:
            r[l] = (r[l][0] / self.scalar, r[l][1] / self.scalar)
        return r


def population(ctx, h):
    """Every vehicle is released once and is, at every interval, in exactly one place."""
    seg = h.seg
    ctx.expect(seg.dup == 0, "a vehicle identity was issued twice")
    created = {}
    gone = {}
    for v in seg.veh.values():
        created[v.seen] = created.get(v.seen, 0) + 1
        if v.gone is not None:
            gone[v.gone] = gone.get(v.gone, 0) + 1
    nc = ng = 0
    for t, num, enroute, finished, _tt in seg.count:
        nc += created.get(t, 0)
        ng += gone.get(t, 0)
        ctx.expect(num == nc, lambda: "interval %d: %d vehicles reported as released, %d observed" % (t, num, nc))
        ctx.expect(finished == ng, lambda: "interval %d: %d vehicles reported as finished, %d observed" % (t, finished, ng))
        ctx.expect(enroute == nc - ng, lambda: "interval %d: %d vehicles reported en route, %d observed" % (t, enroute, nc - ng))
    ctx.count("vehicles", len(seg.veh))
    ctx.count("intervals", len(seg.count))


def node_balance(ctx, scen, cin, cout, what, tol=1e-6):
    """Junctions neither create nor destroy vehicles, at any tick."""
    for n in scen["nodes"]:
        ins = [cout[l[0]] for l in scen["links"] if l[2] == n[0]]
        outs = [cin[l[0]] for l in scen["links"] if l[1] == n[0]]
        if n[1] in ("DMOND", "DMDND") or not ins or not outs:
            continue
        a = sum(ins)
        b = sum(outs)
        d = np.abs(a - b)
        k = int(np.argmax(d))
        ctx.expect(d[k] <= tol, lambda: "%s: node %d at tick %d took in %.6g and let out %.6g"
                   % (what, n[0], k, a[k], b[k]))
        ctx.count("node_ticks", len(a))


def route(ctx, h):
    """Each vehicle drives a connected chain of links from its origin to its destination."""
    scen = h.scen
    onodes = {n for _, n in scen["origins"]}
    dnodes = {n for _, n in scen["dests"]}
    pairs = {}
    on = dict(map(tuple, scen["origins"]))
    dn = dict(map(tuple, scen["dests"]))
    for r in scen["demand"]:
        pairs[(on[r[0]], dn[r[1]])] = r
    for v in h.seg.veh.values():
        vis = h.visits[v.id]
        ctx.expect((v.o, v.d) in pairs, lambda: "vehicle %d goes from %d to %d, a pair without demand" % (v.id, v.o, v.d))
        pos = v.o
        for l, a, b in vis:
            if not ctx.expect(l in h.links, lambda: "vehicle %d on unknown link %d" % (v.id, l)):
                break
            if not ctx.expect(h.links[l][1] == pos, lambda: "vehicle %d jumped from node %d to link %d (%d->%d) at %d"
                              % (v.id, pos, l, h.links[l][1], h.links[l][2], a)):
                break
            pos = h.links[l][2]
        else:
            if v.gone is not None:
                ctx.expect(pos == v.d, lambda: "vehicle %d for node %d was taken out at node %d" % (v.id, v.d, pos))
        ctx.count("hops", len(vis))


def curves_match(ctx, got, exp, what, tol=1e-6):
    """*got* (ticks, 2) step samples against exact counts."""
    d = np.abs(got - exp)
    k = int(np.argmax(d))
    ctx.expect(d[k] <= tol, lambda: "%s: at tick %d the curve says %.6g, %.6g vehicles were seen"
               % (what, k, got[k], exp[k]))
    ctx.count("curve_points", len(exp))
