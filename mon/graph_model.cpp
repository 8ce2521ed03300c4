// Random operation histories on the graph containers of /repo, judged by a plain model.
// usage: graph_model SEED HISTORIES   (exit 0 and a count, or 1 and the first difference)
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <iterator>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>

#include <graph.h>

using macposts::graph::Direction;
static long checks = 0;
static std::string hist;

#define CHECK(c, what)                                                        \
  do                                                                          \
    {                                                                         \
      ++checks;                                                               \
      if (!(c))                                                               \
        {                                                                     \
          printf ("%s\nhistory: %s\n", what, hist.c_str ());                  \
          exit (1);                                                           \
        }                                                                     \
    }                                                                         \
  while (0)

struct Model
{
  std::map<int, int> nodes;
  struct L
  {
    int from, to, data;
  };
  std::map<int, L> links;
};

template <class G> struct Nbr;
template <class N, class L> struct Nbr<macposts::graph::Graph<int, int, N, L, true>>
{
  typedef macposts::graph::Graph<int, int, N, L, true> G;
  static void check (const G &g, G &m, const Model &mod, int id)
  {
    for (int d = 0; d < 2; ++d)
      {
        Direction dir = d ? Direction::Outgoing : Direction::Incoming;
        std::multiset<int> ns, cs, ns2, cs2, en, ec;
        for (const auto &n : g.neighbors (id, dir))
          ns.insert (g.get_id (n));
        for (const auto &l : g.connections (id, dir))
          cs.insert (g.get_id (l));
        for (auto &n : m.neighbors (id, dir))
          ns2.insert (m.get_id (n));
        for (auto &l : m.connections (id, dir))
          cs2.insert (m.get_id (l));
        std::set<int> s;
        for (auto &kv : mod.links)
          if ((d ? kv.second.from : kv.second.to) == id)
            {
              ec.insert (kv.first);
              s.insert (d ? kv.second.to : kv.second.from);
            }
        en.insert (s.begin (), s.end ());
        CHECK (ns == en && ns2 == en, "directed: wrong neighbours");
        CHECK (cs == ec && cs2 == ec, "directed: wrong connections");
        CHECK (g.connections (id, dir).empty () == ec.empty (), "directed: empty() of connections");
        CHECK (g.neighbors (id, dir).empty () == en.empty (), "directed: empty() of neighbours");
      }
  }
};
template <class N, class L> struct Nbr<macposts::graph::Graph<int, int, N, L, false>>
{
  typedef macposts::graph::Graph<int, int, N, L, false> G;
  static void check (const G &g, G &m, const Model &mod, int id)
  {
    std::multiset<int> ns, cs, ns2, cs2, en, ec;
    for (const auto &n : g.neighbors (id))
      ns.insert (g.get_id (n));
    for (const auto &l : g.connections (id))
      cs.insert (g.get_id (l));
    for (auto &n : m.neighbors (id))
      ns2.insert (m.get_id (n));
    for (auto &l : m.connections (id))
      cs2.insert (m.get_id (l));
    std::set<int> s;
    for (auto &kv : mod.links)
      {
        if (kv.second.from == id)
          s.insert (kv.second.to);
        if (kv.second.to == id)
          s.insert (kv.second.from);
        if (kv.second.from == id || kv.second.to == id)
          ec.insert (kv.first);
      }
    en.insert (s.begin (), s.end ());
    CHECK (ns == en && ns2 == en, "undirected: wrong neighbours");
    CHECK (cs == ec && cs2 == ec, "undirected: wrong connections");
    CHECK (g.connections (id).empty () == ec.empty (), "undirected: empty() of connections");
    CHECK (g.neighbors (id).empty () == en.empty (), "undirected: empty() of neighbours");
  }
};

template <class G>
void
audit (G &m, const Model &mod)
{
  const G &g = m;
  CHECK (g.size_nodes () == mod.nodes.size (), "number of nodes");
  CHECK (g.size_links () == mod.links.size (), "number of links");
  std::set<int> a;
  std::size_t k = 0;
  for (const auto &n : g.nodes ())
    a.insert (g.get_id (n)), ++k;
  CHECK (k == mod.nodes.size () && a.size () == k, "nodes() lists a node twice or not at all");
  std::set<int> b;
  k = 0;
  for (const auto &l : g.links ())
    b.insert (g.get_id (l)), ++k;
  CHECK (k == mod.links.size () && b.size () == k, "links() lists a link twice or not at all");
  for (auto &kv : mod.nodes)
    {
      CHECK (a.count (kv.first), "node missing");
      CHECK (g.get_node (kv.first).data == kv.second, "data of a node changed");
      CHECK (g.get_id (g.get_node (kv.first)) == kv.first, "id of a node");
      Nbr<G>::check (g, m, mod, kv.first);
    }
  for (auto &kv : mod.links)
    {
      CHECK (b.count (kv.first), "link missing");
      CHECK (g.get_link (kv.first).data == kv.second.data, "data of a link changed");
      auto e = g.get_endpoints (kv.first);
      CHECK (g.get_id (e.first) == kv.second.from && g.get_id (e.second) == kv.second.to, "endpoints of a link");
      auto e2 = m.get_endpoints (m.get_link (kv.first));
      CHECK (&e2.first == &e.first && &e2.second == &e.second, "endpoints differ between overloads");
    }
}

template <class G>
void
run (unsigned seed)
{
  std::mt19937 r (seed);
  auto u = [&] (int n) { return (int) (r () % (unsigned) n); };
  G g;
  Model mod;
  hist = "seed " + std::to_string (seed) + ":";
  int nn = 1 + u (9), ops = 3 + u (60);
  int span = 1 + u (40);
  for (int i = 0; i < ops; ++i)
    {
      bool threw = false, key = false;
      if (u (10) < 3 || mod.nodes.empty ())
        {
          int id = u (nn * 3) - u (2) * 1000, dv = u (1000);
          hist += " n" + std::to_string (id);
          bool dup = mod.nodes.count (id);
          try
            {
              g.add_node (id, dv);
            }
          catch (const std::runtime_error &)
            {
              threw = true;
            }
          CHECK (threw == dup, "add_node: a duplicate is refused, anything else accepted");
          if (!dup)
            mod.nodes[id] = dv;
        }
      else
        {
          auto pick = [&] () {
            if (u (12) == 0)
              return 77777;
            auto it = mod.nodes.begin ();
            std::advance (it, u ((int) mod.nodes.size ()));
            return it->first;
          };
          int a = pick (), b = pick (), id = u (span * 2) - 5, dv = u (1000);
          hist += " l" + std::to_string (id) + "(" + std::to_string (a) + "," + std::to_string (b) + ")";
          bool unknown = a == 77777 || b == 77777;
          bool bad = mod.links.count (id) || a == b;
          try
            {
              g.add_link (a, b, id, dv);
            }
          catch (const std::out_of_range &)
            {
              key = true;
            }
          catch (const std::runtime_error &)
            {
              threw = true;
            }
          CHECK (key == unknown, "add_link: unknown nodes are refused");
          if (!unknown)
            CHECK (threw == bad, "add_link: duplicates and self-loops are refused, anything else accepted");
          if (!unknown && !bad)
            mod.links[id] = { a, b, dv };
        }
      if (u (6) == 0 || i == ops - 1)
        audit (g, mod);
    }
  // moving a graph keeps it intact
  G h (std::move (g));
  audit (h, mod);
}

int
main (int argc, char **argv)
{
  unsigned seed = atoi (argv[1]);
  int n = atoi (argv[2]);
  for (int i = 0; i < n; ++i)
    {
      run<macposts::graph::DiGraph<int, int>> (seed * 100003u + i);
      run<macposts::graph::UnGraph<int, int>> (seed * 100003u + i);
    }
  printf ("%ld\n", checks);
  return 0;
}
