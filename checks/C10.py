"""The graph container behaves like a plain set of nodes and links, and a network's graph is its file."""
import os
import random
import subprocess

RULE = ("one evaluation = one random history of graph operations on the Python interface (60 operations, audited after "
        "each), or 400 histories on the C++ container (directed and undirected) under ASan/UBSan; distinct = histories")
ASSUMPTIONS = ["identifiers are 32-bit integers"]
TIMEOUT = 200
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def gen(tier, seed):
    k = 8 if tier == "quick" else 64
    return ([dict(cpp=1, seed=seed * 1000 + i, n=400) for i in range(k)]
            + [dict(seed=seed * 1000 + i, n=40) for i in range(k)])


def run(ctx, case):
    if "cpp" in case:
        repo = os.environ.get("VERIF_REPO", "/repo")
        exe = os.path.join(ctx.tmp, "g")
        r = subprocess.run(["g++", "-std=c++11", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                            "-I", os.path.join(repo, "src"), os.path.join(VERIF, "mon", "graph_model.cpp"), "-o", exe],
                           capture_output=True, text=True)
        if r.returncode:
            # the header's template interface is not a promise; the Python interface still decides
            ctx.count("cpp_not_built")
            return
        env = dict(os.environ)
        env.pop("LD_PRELOAD", None)
        env["ASAN_OPTIONS"] = "detect_leaks=1"
        r = subprocess.run([exe, str(case["seed"]), str(case["n"])], capture_output=True, text=True, env=env)
        ctx.expect(r.returncode == 0, "graph container: " + (r.stdout + r.stderr)[:800])
        if r.returncode == 0:
            ctx.count("cpp_checks", int(r.stdout))
        for i in range(case["n"]):
            ctx.sig("cpp%d/%d" % (case["seed"], i))
        return
    from macposts.graph import Direction, Graph
    for i in range(case["n"]):
        rng = random.Random("C10/%d/%d" % (case["seed"], i))
        ctx.sig("py%d/%d" % (case["seed"], i))
        g = Graph()
        nodes, links, hist = set(), {}, []
        big = rng.random() < 0.2
        for _ in range(rng.randint(2, 60)):
            if rng.random() < 0.3 or not nodes:
                n = rng.randint(-3, 15) if not big else rng.choice([-2 ** 31, 2 ** 31 - 1, rng.randint(-2 ** 31, 2 ** 31 - 1)])
                hist.append(("n", n))
                try:
                    g.add_node(n)
                    ctx.expect(n not in nodes, "duplicate node %d accepted: %s" % (n, hist))
                except RuntimeError:
                    ctx.expect(n in nodes, "node %d refused: %s" % (n, hist))
                nodes.add(n)
            else:
                a, b = rng.choice(sorted(nodes)), rng.choice(sorted(nodes))
                if rng.random() < 0.08:
                    a = 777777
                if rng.random() < 0.08:
                    b = rng.choice([777777, 888888])
                l = rng.randint(-3, 30)
                hist.append(("l", a, b, l))
                try:
                    g.add_link(a, b, l)
                    ctx.expect(a in nodes and b in nodes and a != b and l not in links, "link %s accepted: %s" % ((a, b, l), hist))
                    links[l] = (a, b)
                except (RuntimeError, IndexError) as e:
                    ctx.expect(a not in nodes or b not in nodes or a == b or l in links, "link %s refused (%s): %s" % ((a, b, l), e, hist))
            audit(ctx, g, nodes, links, hist, Direction)


def audit(ctx, g, nodes, links, hist, D):
    ctx.count("audits")
    ctx.expect(g.size_nodes == len(nodes) and g.size_links == len(links), lambda: "sizes wrong: %s" % hist)
    ctx.expect(sorted(g.nodes()) == sorted(nodes), lambda: "nodes() %s: %s" % (g.nodes(), hist))
    ctx.expect(sorted(g.links()) == sorted(links), lambda: "links() %s: %s" % (g.links(), hist))
    for l, e in links.items():
        ctx.expect(tuple(g.get_endpoints(l)) == e, lambda: "endpoints of %d: %s" % (l, hist))
        ctx.expect(g.get_id(g.get_link(l)) == l, lambda: "get_link(%d): %s" % (l, hist))
    for n in nodes:
        ctx.expect(g.get_id(g.get_node(n)) == n, lambda: "get_node(%d): %s" % (n, hist))
        for d, a, b in ((D.Outgoing, 0, 1), (D.Incoming, 1, 0)):
            ec = sorted(l for l, e in links.items() if e[a] == n)
            en = sorted({e[b] for e in links.values() if e[a] == n})
            ctx.expect(sorted(g.connections(n, d)) == ec, lambda: "connections of %d: %s, expected %s: %s" % (n, g.connections(n, d), ec, hist))
            ctx.expect(sorted(g.neighbors(n, d)) == en, lambda: "neighbours of %d: %s, expected %s: %s" % (n, g.neighbors(n, d), en, hist))
