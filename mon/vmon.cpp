// Runtime monitor: records, at the end of every loading interval, what changed
// in the population of vehicles and the state of the links.  It only reads.
// Rows of 12 int64; see lib/trace.py for the layout.
#include "dta.h"
#include "multiclass.h"
#ifndef VMON_NO_MM
#include "multimodal.h"
#endif

#include <cmath>
#include <cstdint>
#include <unordered_map>
#include <vector>

#define VIS __attribute__ ((visibility ("default")))

namespace
{
const int W = 12;
std::vector<int64_t> g_buf;
int g_flags = 1; // 1: record, 2: link states, 4: stop recording beyond limit
int64_t g_max_rows = 40000000;

struct Seen
{
  MNM_Dlink *cur;
  MNM_Dlink *next;
  MNM_Path *path;
};
MNM_Dta *g_dta = nullptr;
int g_last_int = -1;
std::unordered_map<int, Seen> g_seen;
std::unordered_map<MNM_Path *, int> g_paths;
int g_segment = -1;

void
row (int64_t k, int64_t t, int64_t a = 0, int64_t b = 0, int64_t c = 0,
     int64_t d = 0, int64_t e = 0, int64_t f = 0, int64_t g = 0, int64_t h = 0,
     int64_t i = 0, int64_t j = 0)
{
  if ((int64_t) (g_buf.size () / W) >= g_max_rows)
    return;
  int64_t r[W] = { k, t, a, b, c, d, e, f, g, h, i, j };
  g_buf.insert (g_buf.end (), r, r + W);
}

int64_t
micro (double x)
{
  if (!(x < 9e12))
    return INT64_MAX;
  if (!(x > -9e12))
    return INT64_MIN;
  return (int64_t) std::llround (x * 1e6);
}

int
path_no (MNM_Path *p, int t)
{
  if (p == nullptr)
    return -1;
  auto it = g_paths.find (p);
  if (it != g_paths.end ())
    return it->second;
  int n = (int) g_paths.size ();
  g_paths.insert (std::make_pair (p, n));
  int pos = 0;
#ifndef VMON_NO_MM
  if (auto *q = dynamic_cast<MNM_PnR_Path *> (p))
    {
      for (TInt l : q->m_driving_path->m_link_vec)
        row (7, t, n, pos++, (int) l);
      row (7, t, n, pos++, -1);
      for (TInt l : q->m_transit_path->m_link_vec)
        row (7, t, n, pos++, (int) l);
      return n;
    }
#endif
  for (TInt l : p->m_link_vec)
    row (7, t, n, pos++, (int) l);
  return n;
}
int64_t
lid (MNM_Dlink *l)
{
  return l == nullptr ? -1 : (int64_t) (int) l->m_link_ID;
}
}

#ifndef VMON_NO_MM
namespace
{
struct PSeen
{
  int64_t cur, next, path, bus, places, where;
  bool operator!= (const PSeen &o) const
  {
    return cur != o.cur || next != o.next || path != o.path || bus != o.bus
           || places != o.places || where != o.where;
  }
};
struct BSeen
{
  int64_t stop, stopped, aboard, stops;
};
std::unordered_map<int, PSeen> g_pax;
std::unordered_map<int, BSeen> g_bus;
std::unordered_map<int, int64_t> g_lot;

int64_t
tid (MNM_Transit_Link *l)
{
  return l == nullptr ? -1 : (int64_t) (int) l->m_link_ID;
}

// passengers, buses and parking lots of a multimodal network
void
multimodal (MNM_Dta_Multimodal *m, int t)
{
  MNM_Passenger_Factory *pf = m->m_passenger_factory;
  // where everybody is: <places, kind of the last, link or bus>
  struct Place
  {
    int n, kind;
    int64_t id;
  };
  std::unordered_map<MNM_Passenger *, Place> at;
  auto put = [&] (MNM_Passenger *p, int kind, int64_t id) {
    Place &q = at[p];
    q.n += 1;
    q.kind = kind;
    q.id = id;
  };
  for (auto &kv : m->m_od_factory->m_origin_map)
    {
      auto *o = dynamic_cast<MNM_Origin_Multimodal *> (kv.second);
      if (o != nullptr)
        for (auto *p : o->m_in_passenger_queue)
          put (p, 1, -1);
    }
  for (auto &kv : m->m_od_factory->m_destination_map)
    {
      auto *d = dynamic_cast<MNM_Destination_Multimodal *> (kv.second);
      if (d != nullptr)
        for (auto *p : d->m_out_passenger_queue)
          put (p, 2, -1);
    }
  for (auto &kv : m->m_parkinglot_factory->m_parking_lot_map)
    {
      for (auto *p : kv.second->m_in_passenger_queue)
        put (p, 3, -1);
      int64_t n = (int) kv.second->m_parked_car;
      auto it = g_lot.find ((int) kv.first);
      if (it == g_lot.end () || it->second != n)
        {
          g_lot[(int) kv.first] = n;
          row (14, t, (int) kv.first, n, micro (kv.second->m_occupancy));
        }
    }
  for (auto &kv : m->m_transitlink_factory->m_transit_link_map)
    {
      int64_t id = (int) kv.second->m_link_ID;
      for (auto *p : kv.second->m_incoming_array)
        put (p, 4, id);
      for (auto &q : kv.second->m_passenger_queue)
        put (q.first, 5, id);
      for (auto *p : kv.second->m_finished_array)
        put (p, 6, id);
    }
  std::unordered_map<int, BSeen> bus;
  for (auto &kv : m->m_veh_factory->m_veh_map)
    {
      auto *v = dynamic_cast<MNM_Veh_Multimodal *> (kv.second);
      if (v == nullptr || (int) v->get_bus_route_ID () == -1)
        continue;
      for (auto *p : v->m_passenger_pool)
        put (p, 7, (int) kv.first);
      BSeen b = { -1, (int) v->m_stopped_intervals,
                  (int64_t) v->m_passenger_pool.size (), 0 };
      bus[(int) kv.first] = b;
    }
  std::unordered_map<MNM_Veh *, int> ids;
  for (auto &kv : m->m_veh_factory->m_veh_map)
    ids[kv.second] = (int) kv.first;
  for (auto &kv : m->m_busstop_factory->m_busstop_map)
    {
      auto *s = dynamic_cast<MNM_Busstop_Virtual *> (kv.second);
      if (s == nullptr)
        continue;
      for (auto *v : s->m_bus_queue)
        {
          auto it = ids.find (v);
          if (it == ids.end () || bus.find (it->second) == bus.end ())
            {
              row (15, t, (int) s->m_busstop_ID);
              continue;
            }
          bus[it->second].stop = (int) s->m_busstop_ID;
          bus[it->second].stops += 1;
        }
    }
  for (auto &kv : bus)
    {
      auto it = g_bus.find (kv.first);
      BSeen &b = kv.second;
      if (it == g_bus.end () || it->second.stop != b.stop
          || it->second.stopped != b.stopped || it->second.aboard != b.aboard
          || it->second.stops != b.stops)
        row (13, t, kv.first, b.stop, b.stopped, b.aboard, b.stops);
    }
  g_bus.swap (bus);
  // gone
  for (auto it = g_pax.begin (); it != g_pax.end ();)
    {
      if (pf->m_passenger_map.find (it->first) == pf->m_passenger_map.end ())
        {
          row (11, t, it->first);
          it = g_pax.erase (it);
        }
      else
        ++it;
    }
  int64_t known = 0;
  for (auto &kv : pf->m_passenger_map)
    {
      MNM_Passenger *p = kv.second;
      int id = (int) kv.first;
      auto pl = at.find (p);
      PSeen s = { tid (p->get_current_link ()), tid (p->get_next_link ()), -1,
                  -1, 0, 0 };
      if (pl != at.end ())
        {
          ++known;
          s.places = pl->second.n;
          s.where = pl->second.kind;
          if (pl->second.kind == 7)
            s.bus = pl->second.id;
          else if (pl->second.id >= 0 && pl->second.id != s.cur)
            s.places = -1; // queued on another link than it believes
        }
      s.path = path_no (p->m_pnr ? p->m_pnr_path : p->m_transit_path, t);
      auto it = g_pax.find (id);
      if (it == g_pax.end ())
        {
          int64_t o = -1, d = -1;
          if (p->get_origin () != nullptr)
            o = (int) p->get_origin ()->m_origin_node->m_node_ID;
          if (p->get_destination () != nullptr)
            d = (int) p->get_destination ()->m_dest_node->m_node_ID;
          row (9, t, id, o, d, p->m_pnr ? 1 : 0, (int) p->m_passenger_type,
               (int) p->m_start_time, (int) p->m_assign_interval,
               p->m_parking_lot != nullptr ? (int) p->m_parking_lot->m_ID : -1);
          g_pax.insert (std::make_pair (id, s));
        }
      else if (!(it->second != s))
        continue;
      else
        it->second = s;
      row (10, t, id, s.cur, s.next, s.path, s.bus, s.places, s.where);
    }
  // queued somewhere, but not in the books
  if (known != (int64_t) at.size ())
    row (15, t, -1, known, (int64_t) at.size ());
  auto *vf = dynamic_cast<MNM_Veh_Factory_Multimodal *> (m->m_veh_factory);
  row (12, t, (int) pf->m_num_passenger, (int) pf->m_enroute_passenger,
       (int) pf->m_finished_passenger, micro (pf->m_total_time_passenger),
       (int) pf->m_num_passenger_pnr, (int) pf->m_enroute_passenger_pnr,
       (int) pf->m_finished_passenger_pnr, vf ? (int) vf->m_num_bus : -1,
       vf ? (int) vf->m_finished_bus : -1, vf ? (int) vf->m_num_car_pnr : -1);
}
}
#endif

extern "C" VIS void
macposts_verify_interval (MNM_Dta *dta, int t)
{
  if (!(g_flags & 1))
    return;
  if (dta != g_dta || t <= g_last_int)
    {
      g_dta = dta;
      g_seen.clear ();
      g_paths.clear ();
#ifndef VMON_NO_MM
      g_pax.clear ();
      g_bus.clear ();
      g_lot.clear ();
#endif
      ++g_segment;
      row (0, t, g_segment, (int) dta->m_assign_freq,
           (int) dta->m_total_assign_inter, micro (dta->m_unit_time),
           micro (dta->m_flow_scalar));
    }
  g_last_int = t;
  MNM_Veh_Factory *vf = dta->m_veh_factory;
  // gone
  for (auto it = g_seen.begin (); it != g_seen.end ();)
    {
      if (vf->m_veh_map.find (it->first) == vf->m_veh_map.end ())
        {
          row (3, t, it->first);
          it = g_seen.erase (it);
        }
      else
        ++it;
    }
  for (auto &kv : vf->m_veh_map)
    {
      MNM_Veh *v = kv.second;
      int id = (int) kv.first;
      MNM_Dlink *cur = v->get_current_link ();
      MNM_Dlink *nxt = v->get_next_link ();
      auto it = g_seen.find (id);
      if (it == g_seen.end ())
        {
          int64_t o = -1, d = -1;
          if (v->get_origin () != nullptr
              && v->get_origin ()->m_origin_node != nullptr)
            o = (int) v->get_origin ()->m_origin_node->m_node_ID;
          if (v->get_destination () != nullptr
              && v->get_destination ()->m_dest_node != nullptr)
            d = (int) v->get_destination ()->m_dest_node->m_node_ID;
          row (1, t, id, o, d, (int) v->get_class (), (int) v->m_type,
               (int) v->m_start_time, (int) v->m_assign_interval,
               (int) v->get_label (), (int) v->m_veh_ID,
               (int) v->get_bus_route_ID ());
          if (v->get_ispnr ())
            row (8, t, id);
          row (2, t, id, lid (cur), lid (nxt), path_no (v->m_path, t));
          Seen s = { cur, nxt, v->m_path };
          g_seen.insert (std::make_pair (id, s));
        }
      else
        {
          Seen &s = it->second;
          if (s.cur != cur || s.next != nxt || s.path != v->m_path)
            {
              row (2, t, id, lid (cur), lid (nxt), path_no (v->m_path, t));
              s.cur = cur;
              s.next = nxt;
              s.path = v->m_path;
            }
        }
    }
  row (4, t, (int) vf->m_num_veh, (int) vf->m_enroute, (int) vf->m_finished,
       micro (vf->m_total_time));
#ifndef VMON_NO_MM
  if (auto *mm = dynamic_cast<MNM_Dta_Multimodal *> (dta))
    multimodal (mm, t);
#endif
  if (g_flags & 2)
    {
      for (auto &kv : dta->m_link_factory->m_link_map)
        {
          MNM_Dlink *l = kv.second;
          MNM_Dlink_Multiclass *m = dynamic_cast<MNM_Dlink_Multiclass *> (l);
          int64_t fc = 0, ft = 0;
          if (m != nullptr)
            {
              fc = micro (m->get_link_flow_car ());
              ft = micro (m->get_link_flow_truck ());
            }
          int64_t nc = 0, nt = 0;
          for (MNM_Veh *v : l->m_finished_array)
            ((int) v->get_class () == 1 ? nt : nc) += 1;
          row (5, t, (int) l->m_link_ID, micro (l->get_link_flow ()), fc, ft,
               (int) l->m_finished_array.size (),
               (int) l->m_incoming_array.size (), micro (l->get_link_tt ()),
               micro (l->m_toll), nc, nt);
        }
    }
}

extern "C" VIS const int64_t *
vmon_data ()
{
  return g_buf.data ();
}
extern "C" VIS int64_t
vmon_rows ()
{
  return (int64_t) (g_buf.size () / W);
}
extern "C" VIS int
vmon_multimodal ()
{
#ifndef VMON_NO_MM
  return 1;
#else
  return 0;
#endif
}
extern "C" VIS void
vmon_config (int flags)
{
  g_flags = flags;
}
extern "C" VIS void
vmon_reset ()
{
  g_buf.clear ();
  g_seen.clear ();
  g_paths.clear ();
#ifndef VMON_NO_MM
  g_pax.clear ();
  g_bus.clear ();
  g_lot.clear ();
#endif
  g_dta = nullptr;
  g_last_int = -1;
  g_segment = -1;
}
