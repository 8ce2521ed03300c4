From 5066b2e56251ffa4595d409e988958f7847d7057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:00 +0000
Subject: [PATCH 01/61] verify: add a guarded end-of-interval monitoring hook
 (MACPOSTS_VERIFY)

---
 src/dta.cpp        | 3 +++
 src/dta.h          | 6 ++++++
 src/ev_traffic.cpp | 3 +++
 src/multimodal.cpp | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/dta.cpp b/src/dta.cpp
index 0a7078c..ba4c5f8 100644
--- a/src/dta.cpp
+++ b/src/dta.cpp
@@ -685,6 +685,9 @@ MNM_Dta::load_once (bool verbose, TInt load_int, TInt assign_int)
   // test();
   // consistent with loading()
   m_current_loading_interval = load_int + 1;
+#ifdef MACPOSTS_VERIFY
+  macposts_verify_interval (this, load_int);
+#endif
   return 0;
 }
 
diff --git a/src/dta.h b/src/dta.h
index 61a961b..e371e4f 100644
--- a/src/dta.h
+++ b/src/dta.h
@@ -65,6 +65,12 @@ public:
   std::deque<TInt> m_enroute_veh_num; // total enroute vehicle number
 };
 
+#ifdef MACPOSTS_VERIFY
+// Verification builds only: called at the end of every loading interval so that
+// an external monitor can observe the state of the simulation.
+extern "C" void macposts_verify_interval (MNM_Dta *dta, int load_int);
+#endif
+
 namespace MNM
 {
 int print_vehicle_statistics (MNM_Veh_Factory *veh_factory);
diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 0a9f22f..819ebd7 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -2255,5 +2255,8 @@ MNM_Dta_EV::load_once (bool verbose, TInt load_int, TInt assign_int)
   // test();
   // consistent with loading()
   m_current_loading_interval = load_int + 1;
+#ifdef MACPOSTS_VERIFY
+  macposts_verify_interval (this, load_int);
+#endif
   return 0;
 }
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 430bb80..af93873 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -10752,6 +10752,9 @@ MNM_Dta_Multimodal::load_once (bool verbose, TInt load_int, TInt assign_int)
 
   // test();
   m_current_loading_interval = load_int + 1;
+#ifdef MACPOSTS_VERIFY
+  macposts_verify_interval (this, load_int);
+#endif
   return 0;
 }
 
-- 
2.43.0


From ea5d2528ceb24a15a42f70dcbf2746a91545a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:47 +0000
Subject: [PATCH 02/61] fix: size the per-minute demand and adaptive-ratio
 tables by their real length

The tables were copied with a hard-coded 15 minutes per assignment interval, so
shorter assignment intervals read past the source array and longer ones were
allocated too short.
---
 src/multiclass.cpp | 34 ++++++++++++++++++++--------------
 src/multiclass.h   |  6 ++++--
 src/multimodal.cpp | 40 ++++++++++++++++++++++++----------------
 src/multimodal.h   |  7 ++++---
 4 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 70c4f0d..7dd39c2 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2980,18 +2980,19 @@ MNM_Origin_Multiclass::generate_label (TInt veh_class)
 
 int
 MNM_Origin_Multiclass::add_dest_demand_multiclass (
-  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck)
+  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck,
+  TInt num_intervals)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // demand is already split into 1-minute intervals
+  double *_demand_car = new double[num_intervals]();
+  for (int i = 0; i < num_intervals; ++i)
     {
       _demand_car[i] = TFlt (demand_car[i]);
     }
   m_demand_car.insert ({ dest, _demand_car });
 
-  double *_demand_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_truck = new double[num_intervals]();
+  for (int i = 0; i < num_intervals; ++i)
     {
       _demand_truck[i] = TFlt (demand_truck[i]);
     }
@@ -3002,18 +3003,19 @@ MNM_Origin_Multiclass::add_dest_demand_multiclass (
 
 int
 MNM_Origin_Multiclass::add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck)
+                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                                           TInt num_intervals)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  TFlt *_ratio_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // demand is already split into 1-minute intervals
+  TFlt *_ratio_car = new double[num_intervals]();
+  for (int i = 0; i < num_intervals; ++i)
     {
       _ratio_car[i] = TFlt (ad_ratio_car[i]);
     }
   m_adaptive_ratio_car.insert ({ dest, _ratio_car });
 
-  TFlt *_ratio_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  TFlt *_ratio_truck = new double[num_intervals]();
+  for (int i = 0; i < num_intervals; ++i)
     {
       _ratio_truck[i] = TFlt (ad_ratio_truck[i]);
     }
@@ -3897,7 +3899,9 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
               _dest = dynamic_cast<MNM_Destination_Multiclass *> (
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _max_interval
+                                                     * _num_of_minute);
             }
           else
             {
@@ -3977,7 +3981,9 @@ MNM_IO_Multiclass::build_td_adaptive_ratio (const std::string &file_folder,
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_adaptive_ratio_multiclass (_dest, 
                                                            _ratio_vector_car,
-                                                           _ratio_vector_truck);
+                                                           _ratio_vector_truck,
+                                                           _max_interval
+                                                             * _num_of_minute);
             }
           else
             {
diff --git a/src/multiclass.h b/src/multiclass.h
index a3e2bce..2fa398c 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -418,9 +418,11 @@ public:
 
   // use this one instead of add_dest_demand in the base class
   int add_dest_demand_multiclass (MNM_Destination_Multiclass *dest,
-                                  TFlt *demand_car, TFlt *demand_truck);
+                                  TFlt *demand_car, TFlt *demand_truck,
+                                  TInt num_intervals);
   int add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck);
+                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                          TInt num_intervals);
   // two new unordered_map for both classes
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index af93873..d100842 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2606,12 +2606,13 @@ MNM_Origin_Multimodal::evolve (TInt timestamp)
 
 int
 MNM_Origin_Multimodal::add_dest_demand_bus (MNM_Destination_Multimodal *dest,
-                                            TInt routeID, TFlt *demand_bus)
+                                            TInt routeID, TFlt *demand_bus,
+                                            TInt num_intervals)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
+  // demand is already split into 1-minute intervals
   // bus demand
-  double *_demand_bus = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_bus = new double[num_intervals]();
+  for (int i = 0; i < num_intervals; ++i)
     {
       _demand_bus[i] = TFlt (demand_bus[i]);
     }
@@ -2631,11 +2632,11 @@ MNM_Origin_Multimodal::add_dest_demand_bus (MNM_Destination_Multimodal *dest,
 
 int
 MNM_Origin_Multimodal::add_dest_demand_pnr_car (
-  MNM_Destination_Multimodal *dest, TFlt *demand_pnr_car)
+  MNM_Destination_Multimodal *dest, TFlt *demand_pnr_car, TInt num_intervals)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_pnr_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // demand is already split into 1-minute intervals
+  double *_demand_pnr_car = new double[num_intervals]();
+  for (int i = 0; i < num_intervals; ++i)
     {
       _demand_pnr_car[i] = TFlt (demand_pnr_car[i]);
     }
@@ -2645,11 +2646,12 @@ MNM_Origin_Multimodal::add_dest_demand_pnr_car (
 
 int
 MNM_Origin_Multimodal::add_dest_demand_passenger_bus (
-  MNM_Destination_Multimodal *dest, TFlt *demand_passenger_bus)
+  MNM_Destination_Multimodal *dest, TFlt *demand_passenger_bus,
+  TInt num_intervals)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_passenger_bus = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // demand is already split into 1-minute intervals
+  double *_demand_passenger_bus = new double[num_intervals]();
+  for (int i = 0; i < num_intervals; ++i)
     {
       _demand_passenger_bus[i] = TFlt (demand_passenger_bus[i]);
     }
@@ -8617,7 +8619,9 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _max_interval
+                                                     * _num_of_minute);
             }
           else
             {
@@ -8706,7 +8710,8 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
               _origin->add_dest_demand_bus (_dest, _route_ID,
-                                            _demand_vector_bus);
+                                            _demand_vector_bus,
+                                            _max_interval * _num_of_minute);
             }
           else
             {
@@ -8815,7 +8820,8 @@ MNM_IO_Multimodal::build_pnr_demand (const std::string &file_folder,
                 od_factory->get_origin (_origin_ID));
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
-              _origin->add_dest_demand_pnr_car (_dest, _demand_vector);
+              _origin->add_dest_demand_pnr_car (_dest, _demand_vector,
+                                                _max_interval * _num_of_minute);
             }
           else
             {
@@ -8927,7 +8933,9 @@ MNM_IO_Multimodal::build_bustransit_demand (const std::string &file_folder,
                 od_factory->get_origin (_origin_ID));
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
-              _origin->add_dest_demand_passenger_bus (_dest, _demand_vector);
+              _origin->add_dest_demand_passenger_bus (_dest, _demand_vector,
+                                                      _max_interval
+                                                        * _num_of_minute);
             }
           else
             {
diff --git a/src/multimodal.h b/src/multimodal.h
index a9e51b3..6dbaf7d 100644
--- a/src/multimodal.h
+++ b/src/multimodal.h
@@ -421,13 +421,14 @@ public:
                                       TFlt adaptive_ratio);
 
   int add_dest_demand_bus (MNM_Destination_Multimodal *dest, TInt routeID,
-                           TFlt *demand_bus);
+                           TFlt *demand_bus, TInt num_intervals);
 
   int add_dest_demand_pnr_car (MNM_Destination_Multimodal *dest,
-                               TFlt *demand_pnr_car);
+                               TFlt *demand_pnr_car, TInt num_intervals);
 
   int add_dest_demand_passenger_bus (MNM_Destination_Multimodal *dest,
-                                     TFlt *demand_passenger_bus);
+                                     TFlt *demand_passenger_bus,
+                                     TInt num_intervals);
 
   // <Destination node, <routeID, time-varying demand>>
   std::unordered_map<MNM_Destination_Multimodal *,
-- 
2.43.0


From c6f3d5a1d3bf9796c87870c39698a13eb36fccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:00 +0000
Subject: [PATCH 03/61] fix: release array allocations with delete[]

The per-link travel time, cost, congestion and dissipation tables, the
time-dependent shortest path labels and the pre-routing tables are allocated
with new[], but were released with scalar delete.
---
 macposts/_ext/dta.cpp   |  8 ++++----
 macposts/_ext/mcdta.cpp | 16 ++++++++--------
 src/dso.cpp             |  4 ++--
 src/due.cpp             |  4 ++--
 src/pre_routing.cpp     |  2 +-
 src/shortest_path.cpp   |  4 ++--
 6 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 03d9f20..8d36b49 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -184,25 +184,25 @@ Dta::~Dta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
 
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f7b8572..f6af64a 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -310,49 +310,49 @@ Mcdta::~Mcdta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _tt_it : m_link_tt_map_truck)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map_truck.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _cost_it : m_link_cost_map_truck)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map_truck.clear ();
 
   for (auto _it : m_link_congested_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_car.clear ();
 
   for (auto _it : m_link_congested_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_truck.clear ();
 
   for (auto _it : m_queue_dissipated_time_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_car.clear ();
 
   for (auto _it : m_queue_dissipated_time_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_truck.clear ();
 
diff --git a/src/dso.cpp b/src/dso.cpp
index 44b0428..1fb031f 100644
--- a/src/dso.cpp
+++ b/src/dso.cpp
@@ -11,12 +11,12 @@ MNM_Dso::~MNM_Dso ()
 {
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
diff --git a/src/due.cpp b/src/due.cpp
index d4fa8ed..ebb3fa9 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -398,12 +398,12 @@ MNM_Due_Msa::~MNM_Due_Msa ()
 {
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
   delete m_base_dta;
diff --git a/src/pre_routing.cpp b/src/pre_routing.cpp
index 47d6e0d..4c5e74f 100644
--- a/src/pre_routing.cpp
+++ b/src/pre_routing.cpp
@@ -127,7 +127,7 @@ MNM_Pre_Routing::~MNM_Pre_Routing ()
           for (auto _demand_it = _rt_dit->second.begin ();
                _demand_it != _rt_dit->second.end (); _demand_it++)
             {
-              delete _demand_it->second;
+              delete[] _demand_it->second;
             }
         }
     }
diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 80979b2..4c097bb 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -574,9 +574,9 @@ MNM_TDSP_Tree::~MNM_TDSP_Tree ()
     {
       _node_ID = m_graph.get_id (n);
       if (m_dist[_node_ID] != nullptr)
-        delete m_dist[_node_ID];
+        delete[] m_dist[_node_ID];
       if (m_tree[_node_ID] != nullptr)
-        delete m_tree[_node_ID];
+        delete[] m_tree[_node_ID];
     }
   m_dist.clear ();
   m_tree.clear ();
-- 
2.43.0


From 6a7ca1d69d3583f4251198693a77e17a1ecf1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:07 +0000
Subject: [PATCH 04/61] fix: do not count vehicles waiting at the end of a CTM
 link twice

The volume of the last cell already includes m_finished_array, so adding the
array again overstated the link volume records and the density used for
adaptive routing.
---
 src/dlink.cpp      |  2 +-
 src/multiclass.cpp | 23 ++++-------------------
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index eda34d9..b4e0fd6 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -399,7 +399,7 @@ MNM_Dlink_Ctm::get_link_flow ()
     {
       _total_volume += m_cell_array[i]->m_volume;
     }
-  _total_volume += m_finished_array.size ();
+  // The volume of the last cell already includes m_finished_array
   return TFlt (_total_volume) / m_flow_scalar;
 }
 
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 7dd39c2..7168cbb 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -876,14 +876,7 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_car ()
     {
       _total_volume_car += m_cell_array[i]->m_volume_car;
     }
-  std::deque<MNM_Veh *>::iterator _veh_it;
-  for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
-       _veh_it++)
-    {
-      MNM_Veh_Multiclass *_veh = dynamic_cast<MNM_Veh_Multiclass *> (*_veh_it);
-      if (_veh->m_class == 0)
-        _total_volume_car += 1;
-    }
+  // The volume of the last cell already includes m_finished_array
   return TFlt (_total_volume_car) / m_flow_scalar;
 }
 
@@ -895,14 +888,7 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_truck ()
     {
       _total_volume_truck += m_cell_array[i]->m_volume_truck;
     }
-  std::deque<MNM_Veh *>::iterator _veh_it;
-  for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
-       _veh_it++)
-    {
-      MNM_Veh_Multiclass *_veh = dynamic_cast<MNM_Veh_Multiclass *> (*_veh_it);
-      if (_veh->m_class == 1)
-        _total_volume_truck += 1;
-    }
+  // The volume of the last cell already includes m_finished_array
   return TFlt (_total_volume_truck) / m_flow_scalar;
 }
 
@@ -995,9 +981,8 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow ()
       _total_volume_car += m_cell_array[i]->m_volume_car;
       _total_volume_truck += m_cell_array[i]->m_volume_truck;
     }
-  return TFlt (_total_volume_car + _total_volume_truck
-               + m_finished_array.size ())
-         / m_flow_scalar;
+  // The volume of the last cell already includes m_finished_array
+  return TFlt (_total_volume_car + _total_volume_truck) / m_flow_scalar;
 }
 
 TFlt
-- 
2.43.0


From cb150f761785bf41652bacd7a78b888cd9b4cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:05 +0000
Subject: [PATCH 05/61] fix: keep an OD-specific adaptive ratio from leaking to
 later destinations

The time- and OD-dependent ratio overwrote the function argument, so every
destination visited afterwards without a ratio of its own (and, in the
multiclass release, the trucks) used it instead of the configured default.
---
 src/multiclass.cpp | 36 ++++++++++++++++++++----------------
 src/multimodal.cpp | 36 ++++++++++++++++++++----------------
 src/od.cpp         |  9 +++++----
 3 files changed, 45 insertions(+), 36 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 7168cbb..a586e4a 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3068,19 +3068,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3089,7 +3090,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3117,19 +3118,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3138,7 +3140,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3183,19 +3185,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3204,7 +3207,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3232,19 +3235,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3253,7 +3257,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index d100842..2e9fd33 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2677,8 +2677,9 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2687,13 +2688,13 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0),
                                                      TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2702,7 +2703,7 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2729,8 +2730,9 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2739,13 +2741,13 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1),
                                                      TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2754,7 +2756,7 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2884,8 +2886,9 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2894,13 +2897,13 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0),
                                                      TInt (1));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2909,7 +2912,7 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2936,8 +2939,9 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2946,13 +2950,13 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1),
                                                      TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2961,7 +2965,7 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/od.cpp b/src/od.cpp
index 9490b0e..d89bf8d 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -137,18 +137,19 @@ MNM_Origin::release_one_interval (TInt current_interval,
        _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio.find(_demand_it->first) != m_adaptive_ratio.end()) {
-        adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = veh_factory->make_veh (current_interval, MNM_TYPE_STATIC);
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = veh_factory->make_veh (current_interval, MNM_TYPE_ADAPTIVE);
@@ -156,7 +157,7 @@ MNM_Origin::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = veh_factory->make_veh (current_interval,
                                                 MNM_TYPE_ADAPTIVE);
-- 
2.43.0


From 444f0e081e063a4385b650159c02c6419e7565cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:14 +0000
Subject: [PATCH 06/61] fix: let exceptions through silence() when there is
 nothing to silence

With an invalid file descriptor, returning from the finally clause swallowed
every exception raised in the with block.
---
 macposts/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/macposts/utils.py b/macposts/utils.py
index f966690..2a83141 100644
--- a/macposts/utils.py
+++ b/macposts/utils.py
@@ -27,11 +27,12 @@ def silence(fd=STDOUT_FD):
     """
     try:
         os.fstat(fd)
+        valid = True
     except Exception:
-        try:
-            yield
-        finally:
-            return
+        valid = False
+    if not valid:
+        yield
+        return
 
     save = os.dup(fd)
     null = os.open(os.devnull, os.O_RDWR)
-- 
2.43.0


From d000a5b803ee608de9612d3ac8b7c04aafd89c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:10 +0000
Subject: [PATCH 07/61] fix: use turning fractions in the general road junction

The flow of a movement was scaled by demand over the receiving link's supply
instead of the share of the approaching flow that wants the movement, and the
reduction took the least restrictive exit, so loading any network with a GRJ
node soon failed with 'invalid state when moving vehicles'.
---
 src/dnode.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dnode.cpp b/src/dnode.cpp
index 7e6a0e0..7a25d7d 100644
--- a/src/dnode.cpp
+++ b/src/dnode.cpp
@@ -1,6 +1,8 @@
 #include "dnode.h"
 #include "path.h"
 
+#include <limits>
+
 MNM_Dnode::MNM_Dnode (TInt ID, TFlt flow_scalar)
 {
   m_node_ID = ID;
@@ -591,7 +593,7 @@ MNM_Dnode_GRJ::compute_flow ()
       for (size_t j = 0; j < m_out_link_array.size (); ++j)
         {
           m_veh_flow[i * _offset + j]
-            = _f_a * MNM_Ults::divide (m_demand[i * _offset + j], m_supply[j]);
+            = _f_a * MNM_Ults::divide (m_demand[i * _offset + j], m_d_a[i]);
           // printf("to link %d the flow is %.4f\n", m_out_link_array[j] ->
           // m_link_ID, m_veh_flow[i * _offset + j]);
         }
@@ -692,25 +694,28 @@ MNM_Dnode_GRJ::get_theta ()
                 {
                   _down += m_C_a[i]
                            * MNM_Ults::divide (m_demand[i * _offset + j],
-                                               m_supply[j]);
+                                               m_d_a[i]);
                 }
               else
                 {
                   _up += m_d_a[i]
                          * MNM_Ults::divide (m_demand[i * _offset + j],
-                                             m_supply[j]);
+                                             m_d_a[i]);
                 }
             }
           // printf("for j is %d, the value of cal is %lf, s is %lf, up is %lf,
           // down is %lf\n", j, (m_supply[j] - _up)/_down ,m_supply[j](), _up(),
           // _down());
-          _temp3.push_back ((m_supply[j] - _up) / _down);
+          if (_down > 0)
+            _temp3.push_back ((m_supply[j] - _up) / _down);
+          else if (_up <= m_supply[j]) // no restriction
+            _temp3.push_back (std::numeric_limits<double>::max ());
         }
       _temp2.push_back (*max_element (_temp3.begin (), _temp3.end ()));
     }
   // printf("s3\n");
   // printf("_temp2 size %d\n", _temp2.size());
-  TFlt _e2 = *max_element (_temp2.begin (), _temp2.end ());
+  TFlt _e2 = *min_element (_temp2.begin (), _temp2.end ());
 
   // printf("e1 is %lf, e2 is %lf\n", _e1(), _e2());
   // total
-- 
2.43.0


From b3196f82db233de52f78c982fb7b4974816c5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:22 +0000
Subject: [PATCH 08/61] fix: give adaptive routing the empty-network travel
 times at the start

load_once() records the empty network at timestamp -1 for adaptive routing, but
unless the record interval was one loading interval the value only went into
the running average, so the first shortest path trees saw zero travel times.
---
 src/multiclass.cpp | 8 ++++----
 src/multimodal.cpp | 4 ++--
 src/statistics.cpp | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index a586e4a..223705e 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -6630,7 +6630,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
   TFlt _flow, _flow1, _flow2, _tt, _tt1, _tt2;
   if (m_record_volume)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
@@ -6644,7 +6644,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
                 = _flow1;
               m_load_interval_volume_truck.find (_link->m_link_ID)->second
                 = _flow2;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_volume.find (_link->m_link_ID)->second
                     = _flow;
@@ -6697,7 +6697,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
     }
   if (m_record_tt)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
@@ -6710,7 +6710,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
               m_load_interval_tt.find (_link->m_link_ID)->second = _tt;
               m_load_interval_tt_car.find (_link->m_link_ID)->second = _tt1;
               m_load_interval_tt_truck.find (_link->m_link_ID)->second = _tt2;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_tt.find (_link->m_link_ID)->second = _tt;
                   m_record_interval_tt_car.find (_link->m_link_ID)->second
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 2e9fd33..019c825 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -5005,7 +5005,7 @@ MNM_Statistics_Lrn_Multimodal::update_record (TInt timestamp)
   TFlt _tt;
   if (m_record_tt)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_transitlink_factory->m_transit_link_map)
             {
@@ -5013,7 +5013,7 @@ MNM_Statistics_Lrn_Multimodal::update_record (TInt timestamp)
               _tt = _link->get_link_tt ();
               m_load_interval_tt_bus_transit.find (_link->m_link_ID)->second
                 = _tt;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_tt_bus_transit.find (_link->m_link_ID)
                     ->second
diff --git a/src/statistics.cpp b/src/statistics.cpp
index 32bbfab..e63c8c6 100644
--- a/src/statistics.cpp
+++ b/src/statistics.cpp
@@ -321,14 +321,14 @@ MNM_Statistics_Lrn::update_record (TInt timestamp)
   TFlt _flow, _tt;
   if (m_record_volume)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
               _link = _link_it.second;
               _flow = _link->get_link_flow ();
               m_load_interval_volume.find (_link->m_link_ID)->second = _flow;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_volume.find (_link->m_link_ID)->second
                     = _flow;
@@ -357,14 +357,14 @@ MNM_Statistics_Lrn::update_record (TInt timestamp)
     }
   if (m_record_tt)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
               _link = _link_it.second;
               _tt = _link->get_link_tt (); // seconds
               m_load_interval_tt.find (_link->m_link_ID)->second = _tt;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_tt.find (_link->m_link_ID)->second = _tt;
                 }
-- 
2.43.0


From ed542d9da78abe4de27e424e7896845869541c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:53 +0000
Subject: [PATCH 09/61] fix: read fractional tolls from the time-dependent link
 attributes

The toll column was parsed as an integer, so a toll of 2.5 became 2 and one of
0.5 disappeared.
---
 src/io.cpp         | 2 +-
 src/multiclass.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index f716ab7..8d577b4 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -760,7 +760,7 @@ MNM_IO::build_link_td_attribute (const std::string &file_folder,
               _lane_hold_cap = TFlt (
                 std::stod (_words[6])); // jam density (vehicles/mile/lane)
               _number_of_lane = TInt (std::stoi (_words[7]));
-              _toll = TFlt (std::stoi (_words[8]));
+              _toll = TFlt (std::stod (_words[8]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 223705e..0d6d11e 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4226,7 +4226,7 @@ MNM_IO_Multiclass::build_link_td_attribute (const std::string &file_folder,
               _lane_flow_cap_truck = TFlt (std::stod (_words[9]));
               _lane_hold_cap_truck = TFlt (std::stod (_words[10]));
               _veh_convert_factor = TFlt (std::stod (_words[11]));
-              _toll = TFlt (std::stoi (_words[12]));
+              _toll = TFlt (std::stod (_words[12]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
-- 
2.43.0


From d4c10c1f4d139055ad1e0ebfc0ae876cec4e2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:30 +0000
Subject: [PATCH 10/61] fix: keep adaptive routing on when only OD-specific
 adaptive ratios ask for it

---
 src/multiclass.h |  4 ++++
 src/od.h         |  5 +++++
 src/routing.cpp  | 12 ++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/multiclass.h b/src/multiclass.h
index 2fa398c..176b22e 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -423,6 +423,10 @@ public:
   int add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
                                           TInt num_intervals);
+  virtual bool has_adaptive_ratio () const override
+  {
+    return !m_adaptive_ratio_car.empty () || !m_adaptive_ratio_truck.empty ();
+  };
   // two new unordered_map for both classes
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
diff --git a/src/od.h b/src/od.h
index db1ef5d..9539baf 100644
--- a/src/od.h
+++ b/src/od.h
@@ -40,6 +40,11 @@ public:
 
   int add_dest_demand (MNM_Destination *dest, TFlt *demand);
   int add_dest_adaptive_ratio (MNM_Destination *dest, TFlt *ad_ratio);
+  // whether some destination has its own adaptive ratio
+  virtual bool has_adaptive_ratio () const
+  {
+    return !m_adaptive_ratio.empty ();
+  };
   MNM_DMOND *m_origin_node;
   // private:
   TInt m_frequency;
diff --git a/src/routing.cpp b/src/routing.cpp
index 1188a25..2fb39bd 100644
--- a/src/routing.cpp
+++ b/src/routing.cpp
@@ -669,6 +669,12 @@ MNM_Routing_Hybrid::MNM_Routing_Hybrid (const std::string &file_folder,
                                 node_factory, link_factory);
   auto *_tmp_config = new MNM_ConfReader (file_folder + "/config.conf", "DTA");
   m_routing_adaptive->m_working = _tmp_config->get_float ("adaptive_ratio") > 0;
+  // the ratios of single OD pairs override the one in the configuration
+  for (auto _it : od_factory->m_origin_map)
+    {
+      if (_it.second->has_adaptive_ratio ())
+        m_routing_adaptive->m_working = true;
+    }
   delete _tmp_config;
 }
 
@@ -729,6 +735,12 @@ MNM_Routing_Biclass_Hybrid::MNM_Routing_Biclass_Hybrid (
   m_routing_adaptive->m_working
     = _tmp_config->get_float ("adaptive_ratio_car") > 0
       || _tmp_config->get_float ("adaptive_ratio_truck") > 0;
+  // the ratios of single OD pairs override the ones in the configuration
+  for (auto _it : od_factory->m_origin_map)
+    {
+      if (_it.second->has_adaptive_ratio ())
+        m_routing_adaptive->m_working = true;
+    }
   delete _tmp_config;
 }
 
-- 
2.43.0


From dcd716053593d4eea368c9c21debffe2fd3f8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:50 +0000
Subject: [PATCH 11/61] fix: make seeded simulations independent of memory
 addresses

The demand tables of an origin were hashed by the addresses of the
destinations, so with the same random state the order in which vehicles
drew random numbers changed from one run to the next. Hash destinations
by their IDs instead.
---
 src/multiclass.cpp  |  4 ----
 src/multiclass.h    | 12 ++++++++----
 src/multimodal.cpp  |  6 ------
 src/multimodal.h    |  7 ++++---
 src/od.cpp          |  7 -------
 src/od.h            | 18 ++++++++++++++++--
 src/pre_routing.cpp |  4 +---
 7 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 0d6d11e..b54feae 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2864,10 +2864,6 @@ MNM_Origin_Multiclass::MNM_Origin_Multiclass (TInt ID, TInt max_interval,
                                               TFlt flow_scalar, TInt frequency)
     : MNM_Origin::MNM_Origin (ID, max_interval, flow_scalar, frequency)
 {
-  m_demand_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_demand_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_adaptive_ratio_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_adaptive_ratio_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
   m_car_label_ratio = std::vector<TFlt> ();
   m_truck_label_ratio = std::vector<TFlt> ();
 }
diff --git a/src/multiclass.h b/src/multiclass.h
index 176b22e..859edee 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -428,10 +428,14 @@ public:
     return !m_adaptive_ratio_car.empty () || !m_adaptive_ratio_truck.empty ();
   };
   // two new unordered_map for both classes
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_car;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_truck;
+  std::unordered_map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Hash>
+    m_demand_car;
+  std::unordered_map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Hash>
+    m_demand_truck;
+  std::unordered_map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Hash>
+    m_adaptive_ratio_car;
+  std::unordered_map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Hash>
+    m_adaptive_ratio_truck;
 
   std::vector<TFlt> m_car_label_ratio;
   std::vector<TFlt> m_truck_label_ratio;
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 019c825..cd3bcf8 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2506,12 +2506,6 @@ MNM_Origin_Multimodal::MNM_Origin_Multimodal (TInt ID, TInt max_interval,
     : MNM_Origin_Multiclass::MNM_Origin_Multiclass (ID, max_interval,
                                                     flow_scalar, frequency)
 {
-  m_demand_bus = std::unordered_map<MNM_Destination_Multimodal *,
-                                    std::unordered_map<TInt, TFlt *>> ();
-  m_demand_pnr_car
-    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
-  m_demand_passenger_bus
-    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
   m_walking_out_links_vec = std::vector<MNM_Walking_Link *> ();
   m_in_passenger_queue = std::deque<MNM_Passenger *> ();
   m_pickup_waiting_time = pickup_waiting_time;
diff --git a/src/multimodal.h b/src/multimodal.h
index 6dbaf7d..cef8be9 100644
--- a/src/multimodal.h
+++ b/src/multimodal.h
@@ -432,12 +432,13 @@ public:
 
   // <Destination node, <routeID, time-varying demand>>
   std::unordered_map<MNM_Destination_Multimodal *,
-                     std::unordered_map<TInt, TFlt *>>
+                     std::unordered_map<TInt, TFlt *>, MNM_Destination_Hash>
     m_demand_bus;
   // <Destination node, time-varying demand>
-  std::unordered_map<MNM_Destination_Multimodal *, TFlt *> m_demand_pnr_car;
+  std::unordered_map<MNM_Destination_Multimodal *, TFlt *, MNM_Destination_Hash>
+    m_demand_pnr_car;
   // <Destination node, time-varying demand>
-  std::unordered_map<MNM_Destination_Multimodal *, TFlt *>
+  std::unordered_map<MNM_Destination_Multimodal *, TFlt *, MNM_Destination_Hash>
     m_demand_passenger_bus;
 
   std::deque<MNM_Passenger *> m_in_passenger_queue;
diff --git a/src/od.cpp b/src/od.cpp
index d89bf8d..a913e6a 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -13,13 +13,6 @@ MNM_Origin::MNM_Origin (TInt ID, TInt max_interval, TFlt flow_scalar,
       throw std::runtime_error ("invalid frequency");
     }
   m_frequency = frequency;
-  m_demand
-    = std::unordered_map<MNM_Destination *,
-                         TFlt *> (); // destination node, time-varying demand
-  m_adaptive_ratio
-    = std::unordered_map<MNM_Destination *,
-                         TFlt *> (); // destination node, time-varying adaptive ratio
-
   m_vehicle_label_ratio = std::vector<TFlt> ();
 }
 
diff --git a/src/od.h b/src/od.h
index 9539baf..52fa3b2 100644
--- a/src/od.h
+++ b/src/od.h
@@ -15,6 +15,17 @@ class MNM_DMOND;
 class MNM_DMDND;
 class MNM_Routing;
 
+// hash destinations by ID, so that the order of iteration (and hence the use of
+// random numbers) does not depend on where they happen to be in memory
+struct MNM_Destination_Hash
+{
+  template <typename T>
+  std::size_t operator() (const T *dest) const
+  {
+    return std::hash<int> () (int (dest->m_Dest_ID));
+  }
+};
+
 class MNM_Origin
 {
 public:
@@ -51,8 +62,11 @@ public:
   TInt m_current_assign_interval;
   TInt m_max_assign_interval;
   TFlt m_flow_scalar;
-  std::unordered_map<MNM_Destination *, TFlt *> m_demand;
-  std::unordered_map<MNM_Destination *, TFlt *> m_adaptive_ratio;
+  // destination, time-varying demand
+  std::unordered_map<MNM_Destination *, TFlt *, MNM_Destination_Hash> m_demand;
+  // destination, time-varying adaptive ratio
+  std::unordered_map<MNM_Destination *, TFlt *, MNM_Destination_Hash>
+    m_adaptive_ratio;
 
   std::vector<TFlt> m_vehicle_label_ratio;
 };
diff --git a/src/pre_routing.cpp b/src/pre_routing.cpp
index 4c5e74f..547f1aa 100644
--- a/src/pre_routing.cpp
+++ b/src/pre_routing.cpp
@@ -33,9 +33,7 @@ MNM_Pre_Routing::MNM_Pre_Routing (Path_Table *path_table,
           _origin_node_ID = _o_it->second->m_origin_node->m_node_ID;
           //-----
           int size_demand = _o_it->second->m_max_assign_interval;
-          std::unordered_map<MNM_Destination *, TFlt *>::const_iterator
-            demand_it
-            = _o_it->second->m_demand.find (_d_it->second);
+          auto demand_it = _o_it->second->m_demand.find (_d_it->second);
           if (demand_it != _o_it->second->m_demand.end ())
             {
               TFlt *demand = demand_it->second;
-- 
2.43.0


From f366513c54aa0c72bbf221b62ab8fa86da266500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:32 +0000
Subject: [PATCH 12/61] fix: list every neighbor of a node, not only the first
 one

---
 src/graph.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graph.h b/src/graph.h
index eb71e2f..8bbfac2 100644
--- a/src/graph.h
+++ b/src/graph.h
@@ -250,6 +250,11 @@ public:
         // Invariant: before stepping to the next neighbor, the current one
         // should have never been seen.
         assert (!(cur && seen.count (cur->endpoints[direction])));
+        if (cur)
+          {
+            seen.insert (cur->endpoints[direction]);
+            cur = cur->next[direction];
+          }
         while (cur || refill)
           {
             if (!cur)
@@ -260,10 +265,6 @@ public:
                   = invert (this->direction);
                 direction = static_cast<int> (this->direction);
               }
-            else
-              {
-                seen.insert (cur->endpoints[direction]);
-              }
 
             if (!seen.count (cur->endpoints[direction]))
               break;
-- 
2.43.0


From 9c6cb356d86e841a65f65cfcdf1d65ede280c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:36 +0000
Subject: [PATCH 13/61] fix: read array arguments in any memory layout

---
 macposts/_ext/dta.cpp   |  72 ++++----
 macposts/_ext/mcdta.cpp | 198 ++++++++++-----------
 macposts/_ext/mmdta.cpp | 384 ++++++++++++++++++++--------------------
 macposts/_ext/tdsp.cpp  |  25 +--
 macposts/_ext/utils.h   |   7 +
 5 files changed, 347 insertions(+), 339 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 8d36b49..192e3f5 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -54,11 +54,11 @@ public:
   // FIXME: This returns a Numpy array for consistency, but it should really be
   // better to use a plain list.
   py::array_t<int> get_all_links ();
-  int register_links (py::array_t<int> links);
+  int register_links (Input_Array<int> links);
   // FIXME: This returns a Numpy array for consistency, but it should really be
   // better to use a plain list.
   py::array_t<int> get_registered_links ();
-  int register_paths (py::array_t<int> paths);
+  int register_paths (Input_Array<int> paths);
   std::vector<bool> check_registered_links_in_registered_paths ();
   py::array_t<bool> are_registered_links_in_registered_paths ();
   py::array_t<int> generate_paths_to_cover_registered_links ();
@@ -66,32 +66,32 @@ public:
   int get_cur_loading_interval ();
   int build_link_cost_map (bool with_congestion_indicator = false);
   int get_link_queue_dissipated_time ();
-  py::array_t<double> get_link_inflow (py::array_t<int> start_intervals,
-                                       py::array_t<int> end_intervals);
-  py::array_t<double> get_link_tt_FD (py::array_t<int> start_intervals);
-  py::array_t<double> get_link_tt (py::array_t<int> start_intervals,
+  py::array_t<double> get_link_inflow (Input_Array<int> start_intervals,
+                                       Input_Array<int> end_intervals);
+  py::array_t<double> get_link_tt_FD (Input_Array<int> start_intervals);
+  py::array_t<double> get_link_tt (Input_Array<int> start_intervals,
                                    bool return_inf = false);
-  py::array_t<double> get_link_tt_robust (py::array_t<double> start_intervals,
-                                          py::array_t<double> end_intervals,
+  py::array_t<double> get_link_tt_robust (Input_Array<double> start_intervals,
+                                          Input_Array<double> end_intervals,
                                           int num_trials = 180,
                                           bool return_inf = false);
 
   // assume build_link_cost_map() is invoked before
-  py::array_t<double> get_path_tt (py::array_t<int> link_IDs,
-                                   py::array_t<int> start_intervals);
-  py::array_t<double> get_registered_path_tt (py::array_t<int> start_intervals);
+  py::array_t<double> get_path_tt (Input_Array<int> link_IDs,
+                                   Input_Array<int> start_intervals);
+  py::array_t<double> get_registered_path_tt (Input_Array<int> start_intervals);
 
   py::array_t<double> get_link_in_cc (int link_ID);
   py::array_t<double> get_link_out_cc (int link_ID);
-  py::array_t<double> get_dar_matrix (py::array_t<int> link_start_intervals,
-                                      py::array_t<int> link_end_intervals);
-  int save_dar_matrix (py::array_t<int> link_start_intervals,
-                       py::array_t<int> link_end_intervals,
-                       py::array_t<double> f, const std::string &file_name);
-  SparseMatrixR get_complete_dar_matrix (py::array_t<int> start_intervals,
-                                         py::array_t<int> end_intervals,
+  py::array_t<double> get_dar_matrix (Input_Array<int> link_start_intervals,
+                                      Input_Array<int> link_end_intervals);
+  int save_dar_matrix (Input_Array<int> link_start_intervals,
+                       Input_Array<int> link_end_intervals,
+                       Input_Array<double> f, const std::string &file_name);
+  SparseMatrixR get_complete_dar_matrix (Input_Array<int> start_intervals,
+                                         Input_Array<int> end_intervals,
                                          int num_intervals,
-                                         py::array_t<double> f);
+                                         Input_Array<double> f);
 
   int delete_all_agents ();
 
@@ -1211,7 +1211,7 @@ Dta::get_link_queue_dissipated_time ()
 }
 
 int
-Dta::register_links (py::array_t<int> links)
+Dta::register_links (Input_Array<int> links)
 {
   if (m_link_vec.size () > 0)
     {
@@ -1262,7 +1262,7 @@ Dta::get_registered_links ()
 }
 
 int
-Dta::register_paths (py::array_t<int> paths)
+Dta::register_paths (Input_Array<int> paths)
 {
   if (m_path_vec.size () > 0)
     {
@@ -1627,8 +1627,8 @@ Dta::save_path_table (const std::string &folder)
 }
 
 py::array_t<double>
-Dta::get_link_inflow (py::array_t<int> start_intervals,
-                      py::array_t<int> end_intervals)
+Dta::get_link_inflow (Input_Array<int> start_intervals,
+                      Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -1687,7 +1687,7 @@ Dta::get_link_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Dta::get_link_tt_FD (py::array_t<int> start_intervals)
+Dta::get_link_tt_FD (Input_Array<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1724,7 +1724,7 @@ Dta::get_link_tt_FD (py::array_t<int> start_intervals)
 }
 
 py::array_t<double>
-Dta::get_link_tt (py::array_t<int> start_intervals, bool return_inf)
+Dta::get_link_tt (Input_Array<int> start_intervals, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1780,8 +1780,8 @@ Dta::get_link_tt (py::array_t<int> start_intervals, bool return_inf)
 }
 
 py::array_t<double>
-Dta::get_link_tt_robust (py::array_t<double> start_intervals,
-                         py::array_t<double> end_intervals, int num_trials,
+Dta::get_link_tt_robust (Input_Array<double> start_intervals,
+                         Input_Array<double> end_intervals, int num_trials,
                          bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -1853,7 +1853,7 @@ Dta::get_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Dta::get_registered_path_tt (py::array_t<int> start_intervals)
+Dta::get_registered_path_tt (Input_Array<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1895,7 +1895,7 @@ Dta::get_registered_path_tt (py::array_t<int> start_intervals)
 }
 
 py::array_t<double>
-Dta::get_path_tt (py::array_t<int> link_IDs, py::array_t<int> start_intervals)
+Dta::get_path_tt (Input_Array<int> link_IDs, Input_Array<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -2001,8 +2001,8 @@ Dta::get_link_out_cc (int link_ID)
 }
 
 py::array_t<double>
-Dta::get_dar_matrix (py::array_t<int> start_intervals,
-                     py::array_t<int> end_intervals)
+Dta::get_dar_matrix (Input_Array<int> start_intervals,
+                     Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -2080,8 +2080,8 @@ Dta::get_dar_matrix (py::array_t<int> start_intervals,
 }
 
 int
-Dta::save_dar_matrix (py::array_t<int> start_intervals,
-                      py::array_t<int> end_intervals, py::array_t<double> f,
+Dta::save_dar_matrix (Input_Array<int> start_intervals,
+                      Input_Array<int> end_intervals, Input_Array<double> f,
                       const std::string &file_name)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
@@ -2191,9 +2191,9 @@ Dta::save_dar_matrix (py::array_t<int> start_intervals,
 }
 
 SparseMatrixR
-Dta::get_complete_dar_matrix (py::array_t<int> start_intervals,
-                              py::array_t<int> end_intervals, int num_intervals,
-                              py::array_t<double> f)
+Dta::get_complete_dar_matrix (Input_Array<int> start_intervals,
+                              Input_Array<int> end_intervals, int num_intervals,
+                              Input_Array<double> f)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
   // 360, 720, ...] with increment of ass_freq
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f6af64a..d8f700e 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -35,7 +35,7 @@ public:
   // FIXME: This returns a Numpy array for consistency, but it should really be
   // better to use a plain list.
   py::array_t<int> get_all_links ();
-  int register_links (py::array_t<int> links);
+  int register_links (Input_Array<int> links);
   // FIXME: This returns a Numpy array for consistency, but it should really be
   // better to use a plain list.
   py::array_t<int> get_registered_links ();
@@ -54,38 +54,38 @@ public:
   py::array_t<int> get_lowest_cost_path (int start_interval, int o_node_ID,
                                          int d_node_ID);
 
-  py::array_t<double> get_car_link_fftt (py::array_t<int> link_IDs);
-  py::array_t<double> get_truck_link_fftt (py::array_t<int> link_IDs);
+  py::array_t<double> get_car_link_fftt (Input_Array<int> link_IDs);
+  py::array_t<double> get_truck_link_fftt (Input_Array<int> link_IDs);
 
-  py::array_t<double> get_car_link_tt (py::array_t<double> start_intervals,
+  py::array_t<double> get_car_link_tt (Input_Array<double> start_intervals,
                                        bool return_inf = false);
   py::array_t<double>
-  get_car_link_tt_robust (py::array_t<double> start_intervals,
-                          py::array_t<double> end_intervals,
+  get_car_link_tt_robust (Input_Array<double> start_intervals,
+                          Input_Array<double> end_intervals,
                           int num_trials = 180, bool return_inf = false);
-  py::array_t<double> get_truck_link_tt (py::array_t<double> start_intervals,
+  py::array_t<double> get_truck_link_tt (Input_Array<double> start_intervals,
                                          bool return_inf = false);
   py::array_t<double>
-  get_truck_link_tt_robust (py::array_t<double> start_intervals,
-                            py::array_t<double> end_intervals,
+  get_truck_link_tt_robust (Input_Array<double> start_intervals,
+                            Input_Array<double> end_intervals,
                             int num_trials = 180, bool return_inf = false);
 
-  py::array_t<double> get_car_link_speed (py::array_t<double> start_intervals);
+  py::array_t<double> get_car_link_speed (Input_Array<double> start_intervals);
   py::array_t<double>
-  get_truck_link_speed (py::array_t<double> start_intervals);
+  get_truck_link_speed (Input_Array<double> start_intervals);
 
-  py::array_t<double> get_link_car_inflow (py::array_t<int> start_intervals,
-                                           py::array_t<int> end_intervals);
-  py::array_t<double> get_link_truck_inflow (py::array_t<int> start_intervals,
-                                             py::array_t<int> end_intervals);
+  py::array_t<double> get_link_car_inflow (Input_Array<int> start_intervals,
+                                           Input_Array<int> end_intervals);
+  py::array_t<double> get_link_truck_inflow (Input_Array<int> start_intervals,
+                                             Input_Array<int> end_intervals);
 
-  int register_paths (py::array_t<int> paths);
+  int register_paths (Input_Array<int> paths);
 
   py::array_t<int> get_registered_links_coverage_in_registered_paths ();
   std::vector<bool> check_registered_links_in_registered_paths ();
   py::array_t<bool> are_registered_links_in_registered_paths ();
   py::array_t<int> generate_paths_to_cover_registered_links ();
-  py::array_t<int> generate_paths_to_cover_links (py::array_t<int> links,
+  py::array_t<int> generate_paths_to_cover_links (Input_Array<int> links,
                                                   int max_iter);
   int save_path_table (const std::string &folder);
 
@@ -95,63 +95,63 @@ public:
   py::array_t<double> get_truck_link_in_cc (int link_ID);
 
   py::array_t<double> get_enroute_and_queue_veh_stats_agg ();
-  py::array_t<double> get_queue_veh_each_link (py::array_t<int> useful_links,
-                                               py::array_t<int> intervals);
+  py::array_t<double> get_queue_veh_each_link (Input_Array<int> useful_links,
+                                               Input_Array<int> intervals);
 
   double get_car_link_out_num (int link_ID, double time);
   double get_truck_link_out_num (int link_ID, double time);
 
-  py::array_t<double> get_car_dar_matrix (py::array_t<int> start_intervals,
-                                          py::array_t<int> end_intervals);
-  py::array_t<double> get_truck_dar_matrix (py::array_t<int> start_intervals,
-                                            py::array_t<int> end_intervals);
-
-  int save_car_dar_matrix (py::array_t<int> start_intervals,
-                           py::array_t<int> end_intervals,
-                           py::array_t<double> f, const std::string &file_name);
-  int save_truck_dar_matrix (py::array_t<int> start_intervals,
-                             py::array_t<int> end_intervals,
-                             py::array_t<double> f,
+  py::array_t<double> get_car_dar_matrix (Input_Array<int> start_intervals,
+                                          Input_Array<int> end_intervals);
+  py::array_t<double> get_truck_dar_matrix (Input_Array<int> start_intervals,
+                                            Input_Array<int> end_intervals);
+
+  int save_car_dar_matrix (Input_Array<int> start_intervals,
+                           Input_Array<int> end_intervals,
+                           Input_Array<double> f, const std::string &file_name);
+  int save_truck_dar_matrix (Input_Array<int> start_intervals,
+                             Input_Array<int> end_intervals,
+                             Input_Array<double> f,
                              const std::string &file_name);
 
-  SparseMatrixR get_complete_car_dar_matrix (py::array_t<int> start_intervals,
-                                             py::array_t<int> end_intervals,
+  SparseMatrixR get_complete_car_dar_matrix (Input_Array<int> start_intervals,
+                                             Input_Array<int> end_intervals,
                                              int num_intervals,
-                                             py::array_t<double> f);
-  SparseMatrixR get_complete_truck_dar_matrix (py::array_t<int> start_intervals,
-                                               py::array_t<int> end_intervals,
+                                             Input_Array<double> f);
+  SparseMatrixR get_complete_truck_dar_matrix (Input_Array<int> start_intervals,
+                                               Input_Array<int> end_intervals,
                                                int num_intervals,
-                                               py::array_t<double> f);
+                                               Input_Array<double> f);
 
   py::array_t<double> get_waiting_time_at_intersections ();
   py::array_t<double> get_waiting_time_at_intersections_car ();
   py::array_t<double> get_waiting_time_at_intersections_truck ();
   py::array_t<int> get_link_spillback ();
   py::array_t<double>
-  get_avg_link_on_path_tt_car (py::array_t<int> link_IDs,
-                               py::array_t<double> start_intervals);
+  get_avg_link_on_path_tt_car (Input_Array<int> link_IDs,
+                               Input_Array<double> start_intervals);
   py::array_t<double>
-  get_avg_link_on_path_tt_truck (py::array_t<int> link_IDs,
-                                 py::array_t<double> start_intervals);
+  get_avg_link_on_path_tt_truck (Input_Array<int> link_IDs,
+                                 Input_Array<double> start_intervals);
   // assume build_link_cost_map() is invoked before
-  py::array_t<double> get_path_tt_car (py::array_t<int> link_IDs,
-                                       py::array_t<int> start_intervals);
-  py::array_t<double> get_path_tt_truck (py::array_t<int> link_IDs,
-                                         py::array_t<int> start_intervals);
+  py::array_t<double> get_path_tt_car (Input_Array<int> link_IDs,
+                                       Input_Array<int> start_intervals);
+  py::array_t<double> get_path_tt_truck (Input_Array<int> link_IDs,
+                                         Input_Array<int> start_intervals);
   py::array_t<double>
-  get_registered_path_tt_car (py::array_t<int> start_intervals);
+  get_registered_path_tt_car (Input_Array<int> start_intervals);
   py::array_t<double>
-  get_registered_path_tt_truck (py::array_t<int> start_intervals);
+  get_registered_path_tt_truck (Input_Array<int> start_intervals);
 
-  py::array_t<double> get_car_ltg_matrix (py::array_t<int> start_intervals,
+  py::array_t<double> get_car_ltg_matrix (Input_Array<int> start_intervals,
                                           int threshold_timestamp);
-  py::array_t<double> get_truck_ltg_matrix (py::array_t<int> start_intervals,
+  py::array_t<double> get_truck_ltg_matrix (Input_Array<int> start_intervals,
                                             int threshold_timestamp);
 
-  SparseMatrixR get_complete_car_ltg_matrix (py::array_t<int> start_intervals,
+  SparseMatrixR get_complete_car_ltg_matrix (Input_Array<int> start_intervals,
                                              int threshold_timestamp,
                                              int num_intervals);
-  SparseMatrixR get_complete_truck_ltg_matrix (py::array_t<int> start_intervals,
+  SparseMatrixR get_complete_truck_ltg_matrix (Input_Array<int> start_intervals,
                                                int threshold_timestamp,
                                                int num_intervals);
 
@@ -508,7 +508,7 @@ Mcdta::get_all_links ()
 }
 
 int
-Mcdta::register_links (py::array_t<int> links)
+Mcdta::register_links (Input_Array<int> links)
 {
   if (m_link_vec.size () > 0)
     {
@@ -1495,8 +1495,8 @@ Mcdta::get_link_spillback ()
 }
 
 py::array_t<double>
-Mcdta::get_avg_link_on_path_tt_car (py::array_t<int> link_IDs,
-                                    py::array_t<double> start_intervals)
+Mcdta::get_avg_link_on_path_tt_car (Input_Array<int> link_IDs,
+                                    Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -1557,8 +1557,8 @@ Mcdta::get_avg_link_on_path_tt_car (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mcdta::get_avg_link_on_path_tt_truck (py::array_t<int> link_IDs,
-                                      py::array_t<double> start_intervals)
+Mcdta::get_avg_link_on_path_tt_truck (Input_Array<int> link_IDs,
+                                      Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -1619,8 +1619,8 @@ Mcdta::get_avg_link_on_path_tt_truck (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mcdta::get_path_tt_car (py::array_t<int> link_IDs,
-                        py::array_t<int> start_intervals)
+Mcdta::get_path_tt_car (Input_Array<int> link_IDs,
+                        Input_Array<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -1689,8 +1689,8 @@ Mcdta::get_path_tt_car (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mcdta::get_path_tt_truck (py::array_t<int> link_IDs,
-                          py::array_t<int> start_intervals)
+Mcdta::get_path_tt_truck (Input_Array<int> link_IDs,
+                          Input_Array<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -1759,7 +1759,7 @@ Mcdta::get_path_tt_truck (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mcdta::get_registered_path_tt_car (py::array_t<int> start_intervals)
+Mcdta::get_registered_path_tt_car (Input_Array<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1801,7 +1801,7 @@ Mcdta::get_registered_path_tt_car (py::array_t<int> start_intervals)
 }
 
 py::array_t<double>
-Mcdta::get_registered_path_tt_truck (py::array_t<int> start_intervals)
+Mcdta::get_registered_path_tt_truck (Input_Array<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1844,7 +1844,7 @@ Mcdta::get_registered_path_tt_truck (py::array_t<int> start_intervals)
 }
 
 py::array_t<double>
-Mcdta::get_car_link_fftt (py::array_t<int> link_IDs)
+Mcdta::get_car_link_fftt (Input_Array<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -1870,7 +1870,7 @@ Mcdta::get_car_link_fftt (py::array_t<int> link_IDs)
 }
 
 py::array_t<double>
-Mcdta::get_truck_link_fftt (py::array_t<int> link_IDs)
+Mcdta::get_truck_link_fftt (Input_Array<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -1897,7 +1897,7 @@ Mcdta::get_truck_link_fftt (py::array_t<int> link_IDs)
 
 // unit: m_mcdta -> m_unit_time (eg: 5 seconds)
 py::array_t<double>
-Mcdta::get_car_link_tt (py::array_t<double> start_intervals, bool return_inf)
+Mcdta::get_car_link_tt (Input_Array<double> start_intervals, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1947,8 +1947,8 @@ Mcdta::get_car_link_tt (py::array_t<double> start_intervals, bool return_inf)
 }
 
 py::array_t<double>
-Mcdta::get_car_link_tt_robust (py::array_t<double> start_intervals,
-                               py::array_t<double> end_intervals,
+Mcdta::get_car_link_tt_robust (Input_Array<double> start_intervals,
+                               Input_Array<double> end_intervals,
                                int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -2020,7 +2020,7 @@ Mcdta::get_car_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_truck_link_tt (py::array_t<double> start_intervals, bool return_inf)
+Mcdta::get_truck_link_tt (Input_Array<double> start_intervals, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -2070,8 +2070,8 @@ Mcdta::get_truck_link_tt (py::array_t<double> start_intervals, bool return_inf)
 }
 
 py::array_t<double>
-Mcdta::get_truck_link_tt_robust (py::array_t<double> start_intervals,
-                                 py::array_t<double> end_intervals,
+Mcdta::get_truck_link_tt_robust (Input_Array<double> start_intervals,
+                                 Input_Array<double> end_intervals,
                                  int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -2144,7 +2144,7 @@ Mcdta::get_truck_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_car_link_speed (py::array_t<double> start_intervals)
+Mcdta::get_car_link_speed (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -2183,7 +2183,7 @@ Mcdta::get_car_link_speed (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mcdta::get_truck_link_speed (py::array_t<double> start_intervals)
+Mcdta::get_truck_link_speed (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -2222,8 +2222,8 @@ Mcdta::get_truck_link_speed (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mcdta::get_link_car_inflow (py::array_t<int> start_intervals,
-                            py::array_t<int> end_intervals)
+Mcdta::get_link_car_inflow (Input_Array<int> start_intervals,
+                            Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -2277,8 +2277,8 @@ Mcdta::get_link_car_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_link_truck_inflow (py::array_t<int> start_intervals,
-                              py::array_t<int> end_intervals)
+Mcdta::get_link_truck_inflow (Input_Array<int> start_intervals,
+                              Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -2332,7 +2332,7 @@ Mcdta::get_link_truck_inflow (py::array_t<int> start_intervals,
 }
 
 int
-Mcdta::register_paths (py::array_t<int> paths)
+Mcdta::register_paths (Input_Array<int> paths)
 {
   if (m_path_vec.size () > 0)
     {
@@ -2713,7 +2713,7 @@ Mcdta::generate_paths_to_cover_registered_links ()
 }
 
 py::array_t<int>
-Mcdta::generate_paths_to_cover_links (py::array_t<int> links, int max_iter)
+Mcdta::generate_paths_to_cover_links (Input_Array<int> links, int max_iter)
 {
   auto links_buf = links.request ();
   if (links_buf.ndim != 1)
@@ -3084,8 +3084,8 @@ Mcdta::get_enroute_and_queue_veh_stats_agg ()
 }
 
 py::array_t<double>
-Mcdta::get_queue_veh_each_link (py::array_t<int> useful_links,
-                                py::array_t<int> intervals)
+Mcdta::get_queue_veh_each_link (Input_Array<int> useful_links,
+                                Input_Array<int> intervals)
 {
   auto intervals_buf = intervals.request ();
   if (intervals_buf.ndim != 1)
@@ -3168,8 +3168,8 @@ Mcdta::get_truck_link_out_num (int link_ID, double time)
 }
 
 py::array_t<double>
-Mcdta::get_car_dar_matrix (py::array_t<int> start_intervals,
-                           py::array_t<int> end_intervals)
+Mcdta::get_car_dar_matrix (Input_Array<int> start_intervals,
+                           Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -3249,8 +3249,8 @@ Mcdta::get_car_dar_matrix (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_truck_dar_matrix (py::array_t<int> start_intervals,
-                             py::array_t<int> end_intervals)
+Mcdta::get_truck_dar_matrix (Input_Array<int> start_intervals,
+                             Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -3328,9 +3328,9 @@ Mcdta::get_truck_dar_matrix (py::array_t<int> start_intervals,
 }
 
 int
-Mcdta::save_car_dar_matrix (py::array_t<int> start_intervals,
-                            py::array_t<int> end_intervals,
-                            py::array_t<double> f, const std::string &file_name)
+Mcdta::save_car_dar_matrix (Input_Array<int> start_intervals,
+                            Input_Array<int> end_intervals,
+                            Input_Array<double> f, const std::string &file_name)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
   // 360, 720, ...] with increment of ass_freq
@@ -3440,9 +3440,9 @@ Mcdta::save_car_dar_matrix (py::array_t<int> start_intervals,
 }
 
 int
-Mcdta::save_truck_dar_matrix (py::array_t<int> start_intervals,
-                              py::array_t<int> end_intervals,
-                              py::array_t<double> f,
+Mcdta::save_truck_dar_matrix (Input_Array<int> start_intervals,
+                              Input_Array<int> end_intervals,
+                              Input_Array<double> f,
                               const std::string &file_name)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
@@ -3553,9 +3553,9 @@ Mcdta::save_truck_dar_matrix (py::array_t<int> start_intervals,
 }
 
 SparseMatrixR
-Mcdta::get_complete_car_dar_matrix (py::array_t<int> start_intervals,
-                                    py::array_t<int> end_intervals,
-                                    int num_intervals, py::array_t<double> f)
+Mcdta::get_complete_car_dar_matrix (Input_Array<int> start_intervals,
+                                    Input_Array<int> end_intervals,
+                                    int num_intervals, Input_Array<double> f)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
   // 360, 720, ...] with increment of ass_freq
@@ -3670,9 +3670,9 @@ Mcdta::get_complete_car_dar_matrix (py::array_t<int> start_intervals,
 }
 
 SparseMatrixR
-Mcdta::get_complete_truck_dar_matrix (py::array_t<int> start_intervals,
-                                      py::array_t<int> end_intervals,
-                                      int num_intervals, py::array_t<double> f)
+Mcdta::get_complete_truck_dar_matrix (Input_Array<int> start_intervals,
+                                      Input_Array<int> end_intervals,
+                                      int num_intervals, Input_Array<double> f)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
   // 360, 720, ...] with increment of ass_freq
@@ -3788,7 +3788,7 @@ Mcdta::get_complete_truck_dar_matrix (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_car_ltg_matrix (py::array_t<int> start_intervals,
+Mcdta::get_car_ltg_matrix (Input_Array<int> start_intervals,
                            int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -4105,7 +4105,7 @@ Mcdta::get_car_ltg_matrix (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_truck_ltg_matrix (py::array_t<int> start_intervals,
+Mcdta::get_truck_ltg_matrix (Input_Array<int> start_intervals,
                              int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -4423,7 +4423,7 @@ Mcdta::get_truck_ltg_matrix (py::array_t<int> start_intervals,
 }
 
 SparseMatrixR
-Mcdta::get_complete_car_ltg_matrix (py::array_t<int> start_intervals,
+Mcdta::get_complete_car_ltg_matrix (Input_Array<int> start_intervals,
                                     int threshold_timestamp, int num_intervals)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -4756,7 +4756,7 @@ Mcdta::get_complete_car_ltg_matrix (py::array_t<int> start_intervals,
 }
 
 SparseMatrixR
-Mcdta::get_complete_truck_ltg_matrix (py::array_t<int> start_intervals,
+Mcdta::get_complete_truck_ltg_matrix (Input_Array<int> start_intervals,
                                       int threshold_timestamp,
                                       int num_intervals)
 {
diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 2e53844..41fa9b3 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -39,11 +39,11 @@ public:
   int run_mmdta_adaptive (const std::string &folder, int cong_frequency = 180,
                           bool verbose = true);
 
-  int register_links_driving (py::array_t<int> links_driving);
-  int register_links_walking (py::array_t<int> links_walking);
-  int register_links_bus (py::array_t<int> links_bus);
+  int register_links_driving (Input_Array<int> links_driving);
+  int register_links_walking (Input_Array<int> links_walking);
+  int register_links_bus (Input_Array<int> links_bus);
   py::array_t<double> get_links_overlapped_bus_driving ();
-  int register_links_bus_driving (py::array_t<int> links_bus_driving);
+  int register_links_bus_driving (Input_Array<int> links_bus_driving);
 
   int get_cur_loading_interval ();
   py::array_t<double> get_travel_stats ();
@@ -54,72 +54,72 @@ public:
   py::array_t<int> get_od_mode_connectivity ();
   int generate_init_mode_demand_file (const std::string &file_folder);
 
-  py::array_t<double> get_car_link_fftt (py::array_t<int> link_IDs);
-  py::array_t<double> get_truck_link_fftt (py::array_t<int> link_IDs);
-  py::array_t<double> get_bus_link_fftt (py::array_t<int> link_IDs);
-  py::array_t<double> get_walking_link_fftt (py::array_t<int> link_IDs);
+  py::array_t<double> get_car_link_fftt (Input_Array<int> link_IDs);
+  py::array_t<double> get_truck_link_fftt (Input_Array<int> link_IDs);
+  py::array_t<double> get_bus_link_fftt (Input_Array<int> link_IDs);
+  py::array_t<double> get_walking_link_fftt (Input_Array<int> link_IDs);
 
-  py::array_t<double> get_car_link_tt (py::array_t<double> start_intervals,
+  py::array_t<double> get_car_link_tt (Input_Array<double> start_intervals,
                                        bool return_inf = false);
   py::array_t<double>
-  get_car_link_tt_robust (py::array_t<double> start_intervals,
-                          py::array_t<double> end_intervals,
+  get_car_link_tt_robust (Input_Array<double> start_intervals,
+                          Input_Array<double> end_intervals,
                           int num_trials = 180, bool return_inf = false);
-  py::array_t<double> get_truck_link_tt (py::array_t<double> start_intervals,
+  py::array_t<double> get_truck_link_tt (Input_Array<double> start_intervals,
                                          bool return_inf = false);
   py::array_t<double>
-  get_truck_link_tt_robust (py::array_t<double> start_intervals,
-                            py::array_t<double> end_intervals,
+  get_truck_link_tt_robust (Input_Array<double> start_intervals,
+                            Input_Array<double> end_intervals,
                             int num_trials = 180, bool return_inf = false);
-  py::array_t<double> get_bus_link_tt (py::array_t<double> start_intervals,
+  py::array_t<double> get_bus_link_tt (Input_Array<double> start_intervals,
                                        bool return_inf = false,
                                        bool return_bus_time = false);
   py::array_t<double>
-  get_bus_link_tt_robust (py::array_t<double> start_intervals,
-                          py::array_t<double> end_intervals,
+  get_bus_link_tt_robust (Input_Array<double> start_intervals,
+                          Input_Array<double> end_intervals,
                           int num_trials = 180, bool return_inf = false,
                           bool return_bus_time = false);
   // for boarding links, this includes bus waiting time
   py::array_t<double>
-  get_passenger_walking_link_tt (py::array_t<double> start_intervals);
+  get_passenger_walking_link_tt (Input_Array<double> start_intervals);
   py::array_t<double>
-  get_passenger_walking_link_tt_robust (py::array_t<double> start_intervals,
-                                        py::array_t<double> end_intervals,
+  get_passenger_walking_link_tt_robust (Input_Array<double> start_intervals,
+                                        Input_Array<double> end_intervals,
                                         int num_trials = 180);
   py::array_t<double>
-  get_bus_driving_link_tt_car (py::array_t<double> start_intervals,
+  get_bus_driving_link_tt_car (Input_Array<double> start_intervals,
                                bool return_inf = false);
   py::array_t<double> get_bus_driving_link_tt_car_robust (
-    py::array_t<double> start_intervals, py::array_t<double> end_intervals,
+    Input_Array<double> start_intervals, Input_Array<double> end_intervals,
     int num_trials = 180, bool return_inf = false);
   py::array_t<double>
-  get_bus_driving_link_tt_truck (py::array_t<double> start_intervals,
+  get_bus_driving_link_tt_truck (Input_Array<double> start_intervals,
                                  bool return_inf = false);
   py::array_t<double> get_bus_driving_link_tt_truck_robust (
-    py::array_t<double> start_intervals, py::array_t<double> end_intervals,
+    Input_Array<double> start_intervals, Input_Array<double> end_intervals,
     int num_trials = 180, bool return_inf = false);
 
-  py::array_t<double> get_car_link_speed (py::array_t<double> start_intervals);
+  py::array_t<double> get_car_link_speed (Input_Array<double> start_intervals);
   py::array_t<double>
-  get_truck_link_speed (py::array_t<double> start_intervals);
-  py::array_t<double> get_bus_link_speed (py::array_t<double> start_intervals,
+  get_truck_link_speed (Input_Array<double> start_intervals);
+  py::array_t<double> get_bus_link_speed (Input_Array<double> start_intervals,
                                           bool return_inf = false,
                                           bool return_bus_time = false);
 
-  py::array_t<double> get_link_car_inflow (py::array_t<int> start_intervals,
-                                           py::array_t<int> end_intervals);
-  py::array_t<double> get_link_truck_inflow (py::array_t<int> start_intervals,
-                                             py::array_t<int> end_intervals);
-  py::array_t<double> get_link_bus_inflow (py::array_t<int> start_intervals,
-                                           py::array_t<int> end_intervals);
-  py::array_t<double> get_busstop_bus_inflow (py::array_t<int> start_intervals,
-                                              py::array_t<int> end_intervals);
+  py::array_t<double> get_link_car_inflow (Input_Array<int> start_intervals,
+                                           Input_Array<int> end_intervals);
+  py::array_t<double> get_link_truck_inflow (Input_Array<int> start_intervals,
+                                             Input_Array<int> end_intervals);
+  py::array_t<double> get_link_bus_inflow (Input_Array<int> start_intervals,
+                                           Input_Array<int> end_intervals);
+  py::array_t<double> get_busstop_bus_inflow (Input_Array<int> start_intervals,
+                                              Input_Array<int> end_intervals);
   py::array_t<double>
-  get_link_bus_passenger_inflow (py::array_t<int> start_intervals,
-                                 py::array_t<int> end_intervals);
+  get_link_bus_passenger_inflow (Input_Array<int> start_intervals,
+                                 Input_Array<int> end_intervals);
   py::array_t<double>
-  get_link_walking_passenger_inflow (py::array_t<int> start_intervals,
-                                     py::array_t<int> end_intervals);
+  get_link_walking_passenger_inflow (Input_Array<int> start_intervals,
+                                     Input_Array<int> end_intervals);
 
   py::array_t<double> get_car_link_out_cc (int link_ID);
   py::array_t<double> get_car_link_in_cc (int link_ID);
@@ -136,11 +136,11 @@ public:
 
   py::array_t<double> get_enroute_and_queue_veh_stats_agg ();
   py::array_t<double> get_enroute_and_queue_passenger_stats_agg ();
-  py::array_t<double> get_queue_veh_each_link (py::array_t<int> useful_links,
-                                               py::array_t<int> intervals);
+  py::array_t<double> get_queue_veh_each_link (Input_Array<int> useful_links,
+                                               Input_Array<int> intervals);
   py::array_t<double>
-  get_queue_passenger_each_link (py::array_t<int> useful_links,
-                                 py::array_t<int> intervals);
+  get_queue_passenger_each_link (Input_Array<int> useful_links,
+                                 Input_Array<int> intervals);
 
   double get_car_link_out_num (int link_ID, double time);
   double get_truck_link_out_num (int link_ID, double time);
@@ -148,11 +148,11 @@ public:
   double get_bus_stop_arrival_num (int busstop_ID, double time);
   double get_bus_stop_departure_num (int busstop_ID, double time);
 
-  int register_paths (py::array_t<int> paths);
-  int register_paths_driving (py::array_t<int> paths);
-  int register_paths_bustransit (py::array_t<int> paths);
-  int register_paths_pnr (py::array_t<int> paths);
-  int register_paths_bus (py::array_t<int> paths);
+  int register_paths (Input_Array<int> paths);
+  int register_paths_driving (Input_Array<int> paths);
+  int register_paths_bustransit (Input_Array<int> paths);
+  int register_paths_pnr (Input_Array<int> paths);
+  int register_paths_bus (Input_Array<int> paths);
 
   std::vector<bool> check_registered_links_in_registered_paths_driving ();
   std::vector<bool> check_registered_links_in_registered_paths_bus ();
@@ -168,39 +168,39 @@ public:
   int save_passenger_path_table (const std::string &file_folder);
   int save_mode_path_table (const std::string &file_folder);
 
-  py::array_t<int> link_seq_to_node_seq_driving (py::array_t<int> link_IDs);
-  py::array_t<int> link_seq_to_node_seq_bustransit (py::array_t<int> link_IDs);
-  py::array_t<int> node_seq_to_link_seq_driving (py::array_t<int> node_IDs);
-  py::array_t<int> node_seq_to_link_seq_bustransit (py::array_t<int> node_IDs);
+  py::array_t<int> link_seq_to_node_seq_driving (Input_Array<int> link_IDs);
+  py::array_t<int> link_seq_to_node_seq_bustransit (Input_Array<int> link_IDs);
+  py::array_t<int> node_seq_to_link_seq_driving (Input_Array<int> node_IDs);
+  py::array_t<int> node_seq_to_link_seq_bustransit (Input_Array<int> node_IDs);
 
   // with m_mmdue -> m_link_tt_map and m_mmdue -> m_transitlink_tt_map
   py::array_t<double>
-  get_passenger_path_cost_driving (py::array_t<int> link_IDs,
-                                   py::array_t<double> start_intervals);
+  get_passenger_path_cost_driving (Input_Array<int> link_IDs,
+                                   Input_Array<double> start_intervals);
   py::array_t<double>
-  get_passenger_path_cost_bus (py::array_t<int> link_IDs,
-                               py::array_t<double> start_intervals);
+  get_passenger_path_cost_bus (Input_Array<int> link_IDs,
+                               Input_Array<double> start_intervals);
   py::array_t<double>
-  get_passenger_path_cost_pnr (py::array_t<int> link_IDs_driving,
-                               py::array_t<int> link_IDs_bustransit,
-                               py::array_t<double> start_intervals);
+  get_passenger_path_cost_pnr (Input_Array<int> link_IDs_driving,
+                               Input_Array<int> link_IDs_bustransit,
+                               Input_Array<double> start_intervals);
 
-  py::array_t<double> get_path_tt_car (py::array_t<int> link_IDs,
-                                       py::array_t<double> start_intervals);
-  py::array_t<double> get_path_tt_truck (py::array_t<int> link_IDs,
-                                         py::array_t<double> start_intervals);
+  py::array_t<double> get_path_tt_car (Input_Array<int> link_IDs,
+                                       Input_Array<double> start_intervals);
+  py::array_t<double> get_path_tt_truck (Input_Array<int> link_IDs,
+                                         Input_Array<double> start_intervals);
 
   // with m_mmdue -> m_link_tt_map_truck
   py::array_t<double>
-  get_registered_path_tt_truck (py::array_t<double> start_intervals);
+  get_registered_path_tt_truck (Input_Array<double> start_intervals);
 
   // with m_mmdue -> m_link_tt_map and m_mmdue -> m_transitlink_tt_map
   py::array_t<double>
-  get_registered_path_tt_driving (py::array_t<double> start_intervals);
+  get_registered_path_tt_driving (Input_Array<double> start_intervals);
   py::array_t<double>
-  get_registered_path_tt_bustransit (py::array_t<double> start_intervals);
+  get_registered_path_tt_bustransit (Input_Array<double> start_intervals);
   py::array_t<double>
-  get_registered_path_tt_pnr (py::array_t<double> start_intervals);
+  get_registered_path_tt_pnr (Input_Array<double> start_intervals);
 
   py::array_t<double> get_registered_path_distance_driving ();
   py::array_t<double> get_registered_path_distance_bustransit ();
@@ -208,11 +208,11 @@ public:
 
   // with m_mmdue -> m_link_tt_map and m_mmdue -> m_transitlink_cost_map
   py::array_t<double>
-  get_registered_path_cost_driving (py::array_t<double> start_intervals);
+  get_registered_path_cost_driving (Input_Array<double> start_intervals);
   py::array_t<double>
-  get_registered_path_cost_bustransit (py::array_t<double> start_intervals);
+  get_registered_path_cost_bustransit (Input_Array<double> start_intervals);
   py::array_t<double>
-  get_registered_path_cost_pnr (py::array_t<double> start_intervals);
+  get_registered_path_cost_pnr (Input_Array<double> start_intervals);
 
   int update_tdsp_tree ();
   py::array_t<int> get_lowest_cost_path (int start_interval, int o_node_ID,
@@ -232,55 +232,55 @@ public:
   py::array_t<int> get_link_spillback ();
 
   py::array_t<double>
-  get_car_dar_matrix_driving (py::array_t<int> start_intervals,
-                              py::array_t<int> end_intervals);
+  get_car_dar_matrix_driving (Input_Array<int> start_intervals,
+                              Input_Array<int> end_intervals);
   py::array_t<double>
-  get_truck_dar_matrix_driving (py::array_t<int> start_intervals,
-                                py::array_t<int> end_intervals);
-  py::array_t<double> get_car_dar_matrix_pnr (py::array_t<int> start_intervals,
-                                              py::array_t<int> end_intervals);
+  get_truck_dar_matrix_driving (Input_Array<int> start_intervals,
+                                Input_Array<int> end_intervals);
+  py::array_t<double> get_car_dar_matrix_pnr (Input_Array<int> start_intervals,
+                                              Input_Array<int> end_intervals);
   py::array_t<double>
-  get_bus_dar_matrix_bustransit_link (py::array_t<int> start_intervals,
-                                      py::array_t<int> end_intervals);
+  get_bus_dar_matrix_bustransit_link (Input_Array<int> start_intervals,
+                                      Input_Array<int> end_intervals);
   py::array_t<double>
-  get_bus_dar_matrix_driving_link (py::array_t<int> start_intervals,
-                                   py::array_t<int> end_intervals);
+  get_bus_dar_matrix_driving_link (Input_Array<int> start_intervals,
+                                   Input_Array<int> end_intervals);
   py::array_t<double>
-  get_passenger_dar_matrix_bustransit (py::array_t<int> start_intervals,
-                                       py::array_t<int> end_intervals);
+  get_passenger_dar_matrix_bustransit (Input_Array<int> start_intervals,
+                                       Input_Array<int> end_intervals);
   py::array_t<double>
-  get_passenger_dar_matrix_pnr (py::array_t<int> start_intervals,
-                                py::array_t<int> end_intervals);
+  get_passenger_dar_matrix_pnr (Input_Array<int> start_intervals,
+                                Input_Array<int> end_intervals);
 
   py::array_t<double>
-  get_car_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
-                                       py::array_t<int> end_intervals);
+  get_car_dar_matrix_bus_driving_link (Input_Array<int> start_intervals,
+                                       Input_Array<int> end_intervals);
   py::array_t<double>
-  get_truck_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
-                                         py::array_t<int> end_intervals);
+  get_truck_dar_matrix_bus_driving_link (Input_Array<int> start_intervals,
+                                         Input_Array<int> end_intervals);
   py::array_t<double> get_passenger_dar_matrix_bustransit_bus_link (
-    py::array_t<int> start_intervals, py::array_t<int> end_intervals);
+    Input_Array<int> start_intervals, Input_Array<int> end_intervals);
   py::array_t<double>
-  get_passenger_dar_matrix_pnr_bus_link (py::array_t<int> start_intervals,
-                                         py::array_t<int> end_intervals);
+  get_passenger_dar_matrix_pnr_bus_link (Input_Array<int> start_intervals,
+                                         Input_Array<int> end_intervals);
 
   // py::array_t<double>
   // get_passenger_bus_link_flow_relationship(py::array_t<int>start_intervals,
   // py::array_t<int>end_intervals);
 
   py::array_t<double>
-  get_car_ltg_matrix_driving (py::array_t<int> start_intervals,
+  get_car_ltg_matrix_driving (Input_Array<int> start_intervals,
                               int threshold_timestamp);
-  py::array_t<double> get_car_ltg_matrix_pnr (py::array_t<int> start_intervals,
+  py::array_t<double> get_car_ltg_matrix_pnr (Input_Array<int> start_intervals,
                                               int threshold_timestamp);
   py::array_t<double>
-  get_truck_ltg_matrix_driving (py::array_t<int> start_intervals,
+  get_truck_ltg_matrix_driving (Input_Array<int> start_intervals,
                                 int threshold_timestamp);
   py::array_t<double>
-  get_passenger_ltg_matrix_bustransit (py::array_t<int> start_intervals,
+  get_passenger_ltg_matrix_bustransit (Input_Array<int> start_intervals,
                                        int threshold_timestamp);
   py::array_t<double>
-  get_passenger_ltg_matrix_pnr (py::array_t<int> start_intervals,
+  get_passenger_ltg_matrix_pnr (Input_Array<int> start_intervals,
                                 int threshold_timestamp);
 
   int delete_all_agents ();
@@ -1158,7 +1158,7 @@ Mmdta::run_mmdta_adaptive (const std::string &folder, int cong_frequency,
 }
 
 int
-Mmdta::register_links_driving (py::array_t<int> links_driving)
+Mmdta::register_links_driving (Input_Array<int> links_driving)
 {
   if (m_link_vec_driving.size () > 0)
     {
@@ -1202,7 +1202,7 @@ Mmdta::register_links_driving (py::array_t<int> links_driving)
 }
 
 int
-Mmdta::register_links_walking (py::array_t<int> links_walking)
+Mmdta::register_links_walking (Input_Array<int> links_walking)
 {
   if (m_link_vec_walking.size () > 0)
     {
@@ -1246,7 +1246,7 @@ Mmdta::register_links_walking (py::array_t<int> links_walking)
 }
 
 int
-Mmdta::register_links_bus (py::array_t<int> links_bus)
+Mmdta::register_links_bus (Input_Array<int> links_bus)
 {
   if (m_link_vec_bus.size () > 0)
     {
@@ -1339,7 +1339,7 @@ Mmdta::get_links_overlapped_bus_driving ()
 }
 
 int
-Mmdta::register_links_bus_driving (py::array_t<int> links_bus_driving)
+Mmdta::register_links_bus_driving (Input_Array<int> links_bus_driving)
 {
   if (!m_link_vec_bus_driving.empty ())
     {
@@ -1861,7 +1861,7 @@ Mmdta::get_travel_stats ()
 }
 
 int
-Mmdta::register_paths (py::array_t<int> paths)
+Mmdta::register_paths (Input_Array<int> paths)
 {
   if (m_path_vec.size () > 0)
     {
@@ -1948,7 +1948,7 @@ Mmdta::register_paths (py::array_t<int> paths)
 }
 
 int
-Mmdta::register_paths_driving (py::array_t<int> paths)
+Mmdta::register_paths_driving (Input_Array<int> paths)
 {
   if (m_path_vec_driving.size () > 0)
     {
@@ -1997,7 +1997,7 @@ Mmdta::register_paths_driving (py::array_t<int> paths)
 }
 
 int
-Mmdta::register_paths_bustransit (py::array_t<int> paths)
+Mmdta::register_paths_bustransit (Input_Array<int> paths)
 {
   if (m_path_vec_bustransit.size () > 0)
     {
@@ -2046,7 +2046,7 @@ Mmdta::register_paths_bustransit (py::array_t<int> paths)
 }
 
 int
-Mmdta::register_paths_pnr (py::array_t<int> paths)
+Mmdta::register_paths_pnr (Input_Array<int> paths)
 {
   if (m_path_vec_pnr.size () > 0)
     {
@@ -2094,7 +2094,7 @@ Mmdta::register_paths_pnr (py::array_t<int> paths)
 }
 
 int
-Mmdta::register_paths_bus (py::array_t<int> paths)
+Mmdta::register_paths_bus (Input_Array<int> paths)
 {
   if (m_path_vec_bus.size () > 0)
     {
@@ -3468,7 +3468,7 @@ Mmdta::save_mode_path_table (const std::string &file_folder)
 }
 
 py::array_t<int>
-Mmdta::link_seq_to_node_seq_driving (py::array_t<int> link_IDs)
+Mmdta::link_seq_to_node_seq_driving (Input_Array<int> link_IDs)
 {
   auto links_buf = link_IDs.request ();
   if (links_buf.ndim != 1)
@@ -3497,7 +3497,7 @@ Mmdta::link_seq_to_node_seq_driving (py::array_t<int> link_IDs)
 }
 
 py::array_t<int>
-Mmdta::link_seq_to_node_seq_bustransit (py::array_t<int> link_IDs)
+Mmdta::link_seq_to_node_seq_bustransit (Input_Array<int> link_IDs)
 {
   auto links_buf = link_IDs.request ();
   if (links_buf.ndim != 1)
@@ -3526,7 +3526,7 @@ Mmdta::link_seq_to_node_seq_bustransit (py::array_t<int> link_IDs)
 }
 
 py::array_t<int>
-Mmdta::node_seq_to_link_seq_driving (py::array_t<int> node_IDs)
+Mmdta::node_seq_to_link_seq_driving (Input_Array<int> node_IDs)
 {
   auto nodes_buf = node_IDs.request ();
   if (nodes_buf.ndim != 1)
@@ -3574,7 +3574,7 @@ Mmdta::node_seq_to_link_seq_driving (py::array_t<int> node_IDs)
 }
 
 py::array_t<int>
-Mmdta::node_seq_to_link_seq_bustransit (py::array_t<int> node_IDs)
+Mmdta::node_seq_to_link_seq_bustransit (Input_Array<int> node_IDs)
 {
   auto nodes_buf = node_IDs.request ();
   if (nodes_buf.ndim != 1)
@@ -3623,8 +3623,8 @@ Mmdta::node_seq_to_link_seq_bustransit (py::array_t<int> node_IDs)
 }
 
 py::array_t<double>
-Mmdta::get_passenger_path_cost_driving (py::array_t<int> link_IDs,
-                                        py::array_t<double> start_intervals)
+Mmdta::get_passenger_path_cost_driving (Input_Array<int> link_IDs,
+                                        Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -3701,8 +3701,8 @@ Mmdta::get_passenger_path_cost_driving (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_path_cost_bus (py::array_t<int> link_IDs,
-                                    py::array_t<double> start_intervals)
+Mmdta::get_passenger_path_cost_bus (Input_Array<int> link_IDs,
+                                    Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -3772,9 +3772,9 @@ Mmdta::get_passenger_path_cost_bus (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_path_cost_pnr (py::array_t<int> link_IDs_driving,
-                                    py::array_t<int> link_IDs_bustransit,
-                                    py::array_t<double> start_intervals)
+Mmdta::get_passenger_path_cost_pnr (Input_Array<int> link_IDs_driving,
+                                    Input_Array<int> link_IDs_bustransit,
+                                    Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -3880,7 +3880,7 @@ Mmdta::get_passenger_path_cost_pnr (py::array_t<int> link_IDs_driving,
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_tt_truck (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_tt_truck (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4042,7 +4042,7 @@ Mmdta::get_registered_path_distance_pnr ()
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_tt_driving (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_tt_driving (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4099,7 +4099,7 @@ Mmdta::get_registered_path_tt_driving (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_tt_bustransit (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_tt_bustransit (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4156,7 +4156,7 @@ Mmdta::get_registered_path_tt_bustransit (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_tt_pnr (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_tt_pnr (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4210,7 +4210,7 @@ Mmdta::get_registered_path_tt_pnr (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_cost_driving (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_cost_driving (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4267,7 +4267,7 @@ Mmdta::get_registered_path_cost_driving (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_cost_bustransit (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_cost_bustransit (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4324,7 +4324,7 @@ Mmdta::get_registered_path_cost_bustransit (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_cost_pnr (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_cost_pnr (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4379,8 +4379,8 @@ Mmdta::get_registered_path_cost_pnr (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_path_tt_car (py::array_t<int> link_IDs,
-                        py::array_t<double> start_intervals)
+Mmdta::get_path_tt_car (Input_Array<int> link_IDs,
+                        Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -4439,8 +4439,8 @@ Mmdta::get_path_tt_car (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mmdta::get_path_tt_truck (py::array_t<int> link_IDs,
-                          py::array_t<double> start_intervals)
+Mmdta::get_path_tt_truck (Input_Array<int> link_IDs,
+                          Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -4918,7 +4918,7 @@ Mmdta::generate_init_mode_demand_file (const std::string &file_folder)
 }
 
 py::array_t<double>
-Mmdta::get_car_link_fftt (py::array_t<int> link_IDs)
+Mmdta::get_car_link_fftt (Input_Array<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -4944,7 +4944,7 @@ Mmdta::get_car_link_fftt (py::array_t<int> link_IDs)
 }
 
 py::array_t<double>
-Mmdta::get_truck_link_fftt (py::array_t<int> link_IDs)
+Mmdta::get_truck_link_fftt (Input_Array<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -4970,7 +4970,7 @@ Mmdta::get_truck_link_fftt (py::array_t<int> link_IDs)
 }
 
 py::array_t<double>
-Mmdta::get_bus_link_fftt (py::array_t<int> link_IDs)
+Mmdta::get_bus_link_fftt (Input_Array<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -4996,7 +4996,7 @@ Mmdta::get_bus_link_fftt (py::array_t<int> link_IDs)
 }
 
 py::array_t<double>
-Mmdta::get_walking_link_fftt (py::array_t<int> link_IDs)
+Mmdta::get_walking_link_fftt (Input_Array<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -5023,7 +5023,7 @@ Mmdta::get_walking_link_fftt (py::array_t<int> link_IDs)
 
 // unit: m_mmdta -> m_unit_time (eg: 5 seconds)
 py::array_t<double>
-Mmdta::get_car_link_tt (py::array_t<double> start_intervals, bool return_inf)
+Mmdta::get_car_link_tt (Input_Array<double> start_intervals, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -5075,8 +5075,8 @@ Mmdta::get_car_link_tt (py::array_t<double> start_intervals, bool return_inf)
 }
 
 py::array_t<double>
-Mmdta::get_car_link_tt_robust (py::array_t<double> start_intervals,
-                               py::array_t<double> end_intervals,
+Mmdta::get_car_link_tt_robust (Input_Array<double> start_intervals,
+                               Input_Array<double> end_intervals,
                                int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5151,7 +5151,7 @@ Mmdta::get_car_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_truck_link_tt (py::array_t<double> start_intervals, bool return_inf)
+Mmdta::get_truck_link_tt (Input_Array<double> start_intervals, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -5204,8 +5204,8 @@ Mmdta::get_truck_link_tt (py::array_t<double> start_intervals, bool return_inf)
 }
 
 py::array_t<double>
-Mmdta::get_truck_link_tt_robust (py::array_t<double> start_intervals,
-                                 py::array_t<double> end_intervals,
+Mmdta::get_truck_link_tt_robust (Input_Array<double> start_intervals,
+                                 Input_Array<double> end_intervals,
                                  int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5280,7 +5280,7 @@ Mmdta::get_truck_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_bus_link_tt (py::array_t<double> start_intervals, bool return_inf,
+Mmdta::get_bus_link_tt (Input_Array<double> start_intervals, bool return_inf,
                         bool return_bus_time)
 {
   auto start_buf = start_intervals.request ();
@@ -5327,8 +5327,8 @@ Mmdta::get_bus_link_tt (py::array_t<double> start_intervals, bool return_inf,
 }
 
 py::array_t<double>
-Mmdta::get_bus_link_tt_robust (py::array_t<double> start_intervals,
-                               py::array_t<double> end_intervals,
+Mmdta::get_bus_link_tt_robust (Input_Array<double> start_intervals,
+                               Input_Array<double> end_intervals,
                                int num_trials, bool return_inf,
                                bool return_bus_time)
 {
@@ -5397,7 +5397,7 @@ Mmdta::get_bus_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_walking_link_tt (py::array_t<double> start_intervals)
+Mmdta::get_passenger_walking_link_tt (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -5436,7 +5436,7 @@ Mmdta::get_passenger_walking_link_tt (py::array_t<double> start_intervals)
 
 py::array_t<double>
 Mmdta::get_passenger_walking_link_tt_robust (
-  py::array_t<double> start_intervals, py::array_t<double> end_intervals,
+  Input_Array<double> start_intervals, Input_Array<double> end_intervals,
   int num_trials)
 {
   auto start_buf = start_intervals.request ();
@@ -5499,7 +5499,7 @@ Mmdta::get_passenger_walking_link_tt_robust (
 }
 
 py::array_t<double>
-Mmdta::get_bus_driving_link_tt_car (py::array_t<double> start_intervals,
+Mmdta::get_bus_driving_link_tt_car (Input_Array<double> start_intervals,
                                     bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5562,8 +5562,8 @@ Mmdta::get_bus_driving_link_tt_car (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_bus_driving_link_tt_car_robust (py::array_t<double> start_intervals,
-                                           py::array_t<double> end_intervals,
+Mmdta::get_bus_driving_link_tt_car_robust (Input_Array<double> start_intervals,
+                                           Input_Array<double> end_intervals,
                                            int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5649,7 +5649,7 @@ Mmdta::get_bus_driving_link_tt_car_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_bus_driving_link_tt_truck (py::array_t<double> start_intervals,
+Mmdta::get_bus_driving_link_tt_truck (Input_Array<double> start_intervals,
                                       bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5712,7 +5712,7 @@ Mmdta::get_bus_driving_link_tt_truck (py::array_t<double> start_intervals,
 
 py::array_t<double>
 Mmdta::get_bus_driving_link_tt_truck_robust (
-  py::array_t<double> start_intervals, py::array_t<double> end_intervals,
+  Input_Array<double> start_intervals, Input_Array<double> end_intervals,
   int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5797,7 +5797,7 @@ Mmdta::get_bus_driving_link_tt_truck_robust (
 }
 
 py::array_t<double>
-Mmdta::get_car_link_speed (py::array_t<double> start_intervals)
+Mmdta::get_car_link_speed (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -5839,7 +5839,7 @@ Mmdta::get_car_link_speed (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_truck_link_speed (py::array_t<double> start_intervals)
+Mmdta::get_truck_link_speed (Input_Array<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -5881,7 +5881,7 @@ Mmdta::get_truck_link_speed (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_bus_link_speed (py::array_t<double> start_intervals, bool return_inf,
+Mmdta::get_bus_link_speed (Input_Array<double> start_intervals, bool return_inf,
                            bool return_bus_time)
 {
   auto start_buf = start_intervals.request ();
@@ -5932,8 +5932,8 @@ Mmdta::get_bus_link_speed (py::array_t<double> start_intervals, bool return_inf,
 }
 
 py::array_t<double>
-Mmdta::get_link_car_inflow (py::array_t<int> start_intervals,
-                            py::array_t<int> end_intervals)
+Mmdta::get_link_car_inflow (Input_Array<int> start_intervals,
+                            Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -5987,8 +5987,8 @@ Mmdta::get_link_car_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_link_truck_inflow (py::array_t<int> start_intervals,
-                              py::array_t<int> end_intervals)
+Mmdta::get_link_truck_inflow (Input_Array<int> start_intervals,
+                              Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -6042,8 +6042,8 @@ Mmdta::get_link_truck_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_link_bus_inflow (py::array_t<int> start_intervals,
-                            py::array_t<int> end_intervals)
+Mmdta::get_link_bus_inflow (Input_Array<int> start_intervals,
+                            Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -6097,8 +6097,8 @@ Mmdta::get_link_bus_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_busstop_bus_inflow (py::array_t<int> start_intervals,
-                               py::array_t<int> end_intervals)
+Mmdta::get_busstop_bus_inflow (Input_Array<int> start_intervals,
+                               Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -6153,8 +6153,8 @@ Mmdta::get_busstop_bus_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_link_bus_passenger_inflow (py::array_t<int> start_intervals,
-                                      py::array_t<int> end_intervals)
+Mmdta::get_link_bus_passenger_inflow (Input_Array<int> start_intervals,
+                                      Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -6210,8 +6210,8 @@ Mmdta::get_link_bus_passenger_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_link_walking_passenger_inflow (py::array_t<int> start_intervals,
-                                          py::array_t<int> end_intervals)
+Mmdta::get_link_walking_passenger_inflow (Input_Array<int> start_intervals,
+                                          Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -6744,8 +6744,8 @@ Mmdta::get_enroute_and_queue_passenger_stats_agg ()
 }
 
 py::array_t<double>
-Mmdta::get_queue_veh_each_link (py::array_t<int> useful_links,
-                                py::array_t<int> intervals)
+Mmdta::get_queue_veh_each_link (Input_Array<int> useful_links,
+                                Input_Array<int> intervals)
 {
   auto intervals_buf = intervals.request ();
   if (intervals_buf.ndim != 1)
@@ -6794,8 +6794,8 @@ Mmdta::get_queue_veh_each_link (py::array_t<int> useful_links,
 }
 
 py::array_t<double>
-Mmdta::get_queue_passenger_each_link (py::array_t<int> useful_links,
-                                      py::array_t<int> intervals)
+Mmdta::get_queue_passenger_each_link (Input_Array<int> useful_links,
+                                      Input_Array<int> intervals)
 {
   auto intervals_buf = intervals.request ();
   if (intervals_buf.ndim != 1)
@@ -6935,8 +6935,8 @@ Mmdta::get_bus_stop_departure_num (int busstop_ID, double time)
 }
 
 py::array_t<double>
-Mmdta::get_car_dar_matrix_driving (py::array_t<int> start_intervals,
-                                   py::array_t<int> end_intervals)
+Mmdta::get_car_dar_matrix_driving (Input_Array<int> start_intervals,
+                                   Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7023,8 +7023,8 @@ Mmdta::get_car_dar_matrix_driving (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_truck_dar_matrix_driving (py::array_t<int> start_intervals,
-                                     py::array_t<int> end_intervals)
+Mmdta::get_truck_dar_matrix_driving (Input_Array<int> start_intervals,
+                                     Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7112,8 +7112,8 @@ Mmdta::get_truck_dar_matrix_driving (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_car_dar_matrix_pnr (py::array_t<int> start_intervals,
-                               py::array_t<int> end_intervals)
+Mmdta::get_car_dar_matrix_pnr (Input_Array<int> start_intervals,
+                               Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7200,8 +7200,8 @@ Mmdta::get_car_dar_matrix_pnr (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_bus_dar_matrix_bustransit_link (py::array_t<int> start_intervals,
-                                           py::array_t<int> end_intervals)
+Mmdta::get_bus_dar_matrix_bustransit_link (Input_Array<int> start_intervals,
+                                           Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7287,8 +7287,8 @@ Mmdta::get_bus_dar_matrix_bustransit_link (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_bus_dar_matrix_driving_link (py::array_t<int> start_intervals,
-                                        py::array_t<int> end_intervals)
+Mmdta::get_bus_dar_matrix_driving_link (Input_Array<int> start_intervals,
+                                        Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7373,8 +7373,8 @@ Mmdta::get_bus_dar_matrix_driving_link (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_dar_matrix_bustransit (py::array_t<int> start_intervals,
-                                            py::array_t<int> end_intervals)
+Mmdta::get_passenger_dar_matrix_bustransit (Input_Array<int> start_intervals,
+                                            Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7499,8 +7499,8 @@ Mmdta::get_passenger_dar_matrix_bustransit (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_dar_matrix_pnr (py::array_t<int> start_intervals,
-                                     py::array_t<int> end_intervals)
+Mmdta::get_passenger_dar_matrix_pnr (Input_Array<int> start_intervals,
+                                     Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7625,8 +7625,8 @@ Mmdta::get_passenger_dar_matrix_pnr (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_car_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
-                                            py::array_t<int> end_intervals)
+Mmdta::get_car_dar_matrix_bus_driving_link (Input_Array<int> start_intervals,
+                                            Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7714,8 +7714,8 @@ Mmdta::get_car_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_truck_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
-                                              py::array_t<int> end_intervals)
+Mmdta::get_truck_dar_matrix_bus_driving_link (Input_Array<int> start_intervals,
+                                              Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7805,7 +7805,7 @@ Mmdta::get_truck_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
 
 py::array_t<double>
 Mmdta::get_passenger_dar_matrix_bustransit_bus_link (
-  py::array_t<int> start_intervals, py::array_t<int> end_intervals)
+  Input_Array<int> start_intervals, Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7897,8 +7897,8 @@ Mmdta::get_passenger_dar_matrix_bustransit_bus_link (
 }
 
 py::array_t<double>
-Mmdta::get_passenger_dar_matrix_pnr_bus_link (py::array_t<int> start_intervals,
-                                              py::array_t<int> end_intervals)
+Mmdta::get_passenger_dar_matrix_pnr_bus_link (Input_Array<int> start_intervals,
+                                              Input_Array<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -8051,7 +8051,7 @@ Mmdta::get_passenger_dar_matrix_pnr_bus_link (py::array_t<int> start_intervals,
 // }
 
 py::array_t<double>
-Mmdta::get_car_ltg_matrix_driving (py::array_t<int> start_intervals,
+Mmdta::get_car_ltg_matrix_driving (Input_Array<int> start_intervals,
                                    int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -8371,7 +8371,7 @@ Mmdta::get_car_ltg_matrix_driving (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_car_ltg_matrix_pnr (py::array_t<int> start_intervals,
+Mmdta::get_car_ltg_matrix_pnr (Input_Array<int> start_intervals,
                                int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -8423,7 +8423,7 @@ Mmdta::get_car_ltg_matrix_pnr (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_truck_ltg_matrix_driving (py::array_t<int> start_intervals,
+Mmdta::get_truck_ltg_matrix_driving (Input_Array<int> start_intervals,
                                      int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -8744,7 +8744,7 @@ Mmdta::get_truck_ltg_matrix_driving (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_ltg_matrix_bustransit (py::array_t<int> start_intervals,
+Mmdta::get_passenger_ltg_matrix_bustransit (Input_Array<int> start_intervals,
                                             int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -8797,7 +8797,7 @@ Mmdta::get_passenger_ltg_matrix_bustransit (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_ltg_matrix_pnr (py::array_t<int> start_intervals,
+Mmdta::get_passenger_ltg_matrix_pnr (Input_Array<int> start_intervals,
                                      int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
diff --git a/macposts/_ext/tdsp.cpp b/macposts/_ext/tdsp.cpp
index 42f49ad..77bfa10 100644
--- a/macposts/_ext/tdsp.cpp
+++ b/macposts/_ext/tdsp.cpp
@@ -5,6 +5,7 @@
 #include <unordered_map>
 #include <vector>
 
+#include "utils.h"
 #include <common.h>
 #include <io.h>
 #include <shortest_path.h>
@@ -28,14 +29,14 @@ public:
                         const std::string &link_cost_file_name = "td_link_cost",
                         const std::string &node_cost_file_name
                         = "td_node_cost");
-  int read_td_cost_py (py::array_t<double> td_link_tt_py,
-                       py::array_t<double> td_link_cost_py,
-                       py::array_t<double> td_node_tt_py,
-                       py::array_t<double> td_node_cost_py);
-  int read_td_link_cost (py::array_t<double> td_link_cost_py,
+  int read_td_cost_py (Input_Array<double> td_link_tt_py,
+                       Input_Array<double> td_link_cost_py,
+                       Input_Array<double> td_node_tt_py,
+                       Input_Array<double> td_node_cost_py);
+  int read_td_link_cost (Input_Array<double> td_link_cost_py,
                          std::unordered_map<TInt, TFlt *> &td_link_cost);
   int read_td_node_cost (
-    py::array_t<double> td_node_cost_py,
+    Input_Array<double> td_node_cost_py,
     std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> &td_node_cost);
 
   int build_tdsp_tree (int dest_node_ID);
@@ -163,10 +164,10 @@ Tdsp::read_td_cost_txt (const std::string &folder,
 }
 
 int
-Tdsp::read_td_cost_py (py::array_t<double> td_link_tt_py,
-                       py::array_t<double> td_link_cost_py,
-                       py::array_t<double> td_node_tt_py,
-                       py::array_t<double> td_node_cost_py)
+Tdsp::read_td_cost_py (Input_Array<double> td_link_tt_py,
+                       Input_Array<double> td_link_cost_py,
+                       Input_Array<double> td_node_tt_py,
+                       Input_Array<double> td_node_cost_py)
 {
   // external input with numpy array
   read_td_link_cost (td_link_tt_py, m_td_link_tt);
@@ -187,7 +188,7 @@ Tdsp::read_td_cost_py (py::array_t<double> td_link_tt_py,
 }
 
 int
-Tdsp::read_td_link_cost (py::array_t<double> td_link_cost_py,
+Tdsp::read_td_link_cost (Input_Array<double> td_link_cost_py,
                          std::unordered_map<TInt, TFlt *> &td_link_cost)
 {
   auto start_buf = td_link_cost_py.request ();
@@ -230,7 +231,7 @@ Tdsp::read_td_link_cost (py::array_t<double> td_link_cost_py,
 
 int
 Tdsp::read_td_node_cost (
-  py::array_t<double> td_node_cost_py,
+  Input_Array<double> td_node_cost_py,
   std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> &td_node_cost)
 {
   auto start_buf = td_node_cost_py.request ();
diff --git a/macposts/_ext/utils.h b/macposts/_ext/utils.h
index b45ddc4..60c3bbf 100644
--- a/macposts/_ext/utils.h
+++ b/macposts/_ext/utils.h
@@ -2,6 +2,7 @@
 #pragma once
 
 #include <algorithm>
+#include <pybind11/numpy.h>
 #include <random>
 
 namespace MNM_Ults
@@ -11,6 +12,12 @@ void set_random_state (unsigned int s);
 
 namespace macposts
 {
+// Array arguments are read through raw pointers, so they must be in C order
+// (pybind11 copies them when they are not).
+template <typename T>
+using Input_Array
+  = pybind11::array_t<T, pybind11::array::c_style | pybind11::array::forcecast>;
+
 // The default random number generator.
 static std::mt19937 rng;
 // FIXME: Upper bound for travel time (?).
-- 
2.43.0


From 8187ef8226bb8d83b2fb40f2e5702dea476861e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:19 +0000
Subject: [PATCH 14/61] fix: keep cumulative curves exact in long simulations

The curves compared times and flows with a relative tolerance of 1e-4, which
merges adjacent intervals after 10,000 of them and cannot tell single vehicles
apart beyond 10,000.
---
 src/dlink.cpp             | 29 +++++++++++++++++------------
 src/dlink.h               |  4 ++++
 src/dta_gradient_utls.cpp | 12 ++++++++----
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index b4e0fd6..a662091 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1028,12 +1028,12 @@ MNM_Cumulative_Curve::add_increment (std::pair<TFlt, TFlt> r)
   // std::pair <TFlt, TFlt> _best = *std::max_element(m_recorder.begin(),
   // m_recorder.end(), pair_compare);
   std::pair<TFlt, TFlt> _best = m_recorder[m_recorder.size () - 1];
-  if (MNM_Ults::approximate_less_than (r.first, _best.first))
+  if (MNM_Ults::approximate_less_than (r.first, _best.first, CC_PRECISION))
     {
       throw std::runtime_error (
         "Error, MNM_Cumulative_Curve::add_increment, early time index");
     }
-  if (MNM_Ults::approximate_equal (r.first, _best.first))
+  if (MNM_Ults::approximate_equal (r.first, _best.first, CC_PRECISION))
     {
       // printf("Incrementing\n");
       m_recorder[m_recorder.size () - 1].second += r.second;
@@ -1101,13 +1101,14 @@ MNM_Cumulative_Curve::get_result (TFlt time)
   auto _lower_j
     = std::lower_bound (m_recorder.begin (), m_recorder.end (), time,
                         [] (const std::pair<TFlt, TFlt> &r, TFlt v) {
-                          return MNM_Ults::approximate_less_than (r.first, v);
+                          return MNM_Ults::approximate_less_than (r.first, v,
+                                                                  CC_PRECISION);
                         });
   j = std::distance (m_recorder.begin (), _lower_j);
   IAssert (j >= 1);
   if (_lower_j != m_recorder.end ())
     {
-      if (MNM_Ults::approximate_equal (m_recorder[j].first, time))
+      if (MNM_Ults::approximate_equal (m_recorder[j].first, time, CC_PRECISION))
         {
           // printf("index j-1 %d, time %f, flow %f\n", j-1,
           // m_recorder[j-1].first(), m_recorder[j-1].second()); printf("index j
@@ -1228,7 +1229,8 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
   auto _lower_j
     = std::lower_bound (m_recorder.begin (), m_recorder.end (), result,
                         [] (const std::pair<TFlt, TFlt> &r, TFlt v) {
-                          return MNM_Ults::approximate_less_than (r.second, v);
+                          return MNM_Ults::approximate_less_than (r.second, v,
+                                                                  CC_PRECISION);
                         });
   j = std::distance (m_recorder.begin (), _lower_j);
   IAssert (j >= 1);
@@ -1238,7 +1240,8 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
     }
   if (_lower_j != m_recorder.end ())
     {
-      if (MNM_Ults::approximate_equal (m_recorder[j].second, result))
+      if (MNM_Ults::approximate_equal (m_recorder[j].second, result,
+                                       CC_PRECISION))
         {
           // printf("index j-1 %d, time %f, flow %f\n", j-1,
           // m_recorder[j-1].first(), m_recorder[j-1].second()); printf("index j
@@ -1251,12 +1254,14 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
         }
       else if (m_recorder[j].second > result)
         {
-          auto _lower_i = std::
-            lower_bound (m_recorder.begin (), _lower_j,
-                         m_recorder[j - 1].second,
-                         [] (const std::pair<TFlt, TFlt> &r, TFlt v) {
-                           return MNM_Ults::approximate_less_than (r.second, v);
-                         });
+          auto _lower_i
+            = std::lower_bound (m_recorder.begin (), _lower_j,
+                                m_recorder[j - 1].second,
+                                [] (const std::pair<TFlt, TFlt> &r, TFlt v) {
+                                  return MNM_Ults::
+                                    approximate_less_than (r.second, v,
+                                                           CC_PRECISION);
+                                });
           i = std::distance (m_recorder.begin (), _lower_i);
           IAssert (i < j);
           // if (i-1 >= 0) {
diff --git a/src/dlink.h b/src/dlink.h
index 5fd20d4..ac4a418 100644
--- a/src/dlink.h
+++ b/src/dlink.h
@@ -17,6 +17,10 @@ class MNM_Path;
 /**************************************************************************
                           Cumulative curve
 **************************************************************************/
+// Relative precision of the times and flows of cumulative curves: it has to
+// tell apart adjacent intervals and single vehicles in long simulations.
+static const TFlt CC_PRECISION = 1e-8;
+
 class MNM_Cumulative_Curve
 {
 public:
diff --git a/src/dta_gradient_utls.cpp b/src/dta_gradient_utls.cpp
index d690ee3..fbd2cdf 100644
--- a/src/dta_gradient_utls.cpp
+++ b/src/dta_gradient_utls.cpp
@@ -58,9 +58,11 @@ get_last_valid_time (MNM_Cumulative_Curve *N_in, MNM_Cumulative_Curve *N_out,
                      TInt end_loading_timestamp, const std::string &s)
 {
   if (MNM_Ults::approximate_less_than (N_in->m_recorder.back ().second,
-                                       N_out->m_recorder.back ().second)
+                                       N_out->m_recorder.back ().second,
+                                       CC_PRECISION)
       && !MNM_Ults::approximate_equal (N_in->m_recorder.back ().second,
-                                       N_out->m_recorder.back ().second))
+                                       N_out->m_recorder.back ().second,
+                                       CC_PRECISION))
     {
       printf ("max in cc flow: %lf, max out cc flow: %lf\n",
               N_in->m_recorder.back ().second,
@@ -75,7 +77,8 @@ get_last_valid_time (MNM_Cumulative_Curve *N_in, MNM_Cumulative_Curve *N_out,
   TFlt _cc_flow = N_out->m_recorder.back ().second;
 
   // link is empty after end_loading_timestamp
-  if (MNM_Ults::approximate_equal (_cc_flow, N_in->m_recorder.back ().second))
+  if (MNM_Ults::approximate_equal (_cc_flow, N_in->m_recorder.back ().second,
+                                   CC_PRECISION))
     {
       return TFlt (end_loading_timestamp);
     }
@@ -93,7 +96,8 @@ get_last_valid_time (MNM_Cumulative_Curve *N_in, MNM_Cumulative_Curve *N_out,
         {
           if (MNM_Ults::approximate_less_than (_cc_flow,
                                                N_in->get_result (
-                                                 TFlt (_last_valid_time + i))))
+                                                 TFlt (_last_valid_time + i)),
+                                               CC_PRECISION))
             {
               return TFlt (_last_valid_time + i - 1);
             }
-- 
2.43.0


From df237e6a5d433df17b01422fa7c2e17a1d8de45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:20 +0000
Subject: [PATCH 15/61] fix: give the free-flow time of link-queue links in
 intervals

get_link_freeflow_tt_loading is documented and used in loading intervals, the
link-queue links returned seconds.
---
 src/dlink.cpp      | 2 +-
 src/multiclass.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index a662091..43b3349 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -937,7 +937,7 @@ MNM_Dlink_Lq::get_link_freeflow_tt_loading ()
 {
   // throw std::runtime_error("Error, MNM_Dlink_Lq::get_link_freeflow_tt_loading
   // NOT implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs);
+  return MNM_Ults::round_up_time (m_length / m_ffs / m_unit_time);
 }
 
 /**************************************************************************
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index b54feae..49276d4 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1946,7 +1946,7 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_car);
+  return MNM_Ults::round_up_time (m_length / m_ffs_car / m_unit_time);
 }
 
 TInt
@@ -1955,7 +1955,7 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_truck);
+  return MNM_Ults::round_up_time (m_length / m_ffs_truck / m_unit_time);
 }
 
 /// Multiclass point queue model
-- 
2.43.0


From 3ac3134ce98c2ba213ba67ec3c040b62e573feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 16/61] fix: use the density over all lanes for travel times of
 two-class link queues

The jam density, critical density and capacity it is compared with are for
all lanes, so links with several lanes looked emptier than they are.
---
 src/multiclass.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 49276d4..3018eec 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1855,9 +1855,9 @@ MNM_Dlink_Lq_Multiclass::get_link_tt ()
 {
   // For adaptive routing and emissions, need modification for multiclass cases
   TFlt _cost, _spd;
-  TFlt _rho = get_link_flow () / m_number_of_lane
-              / m_length; // get the density in veh/mile
-  TFlt _rhoj = m_k_j_car; // get the jam density
+  // m_k_j_car, m_k_C_car and m_C_car are for all lanes
+  TFlt _rho = get_link_flow () / m_length; // get the density in veh/mile
+  TFlt _rhoj = m_k_j_car;                  // get the jam density
   TFlt _rhok = m_k_C_car; // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
   if (_rho >= _rhoj)
@@ -1885,7 +1885,7 @@ TFlt
 MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_car (TFlt flow)
 {
   TFlt _cost, _spd;
-  TFlt _rho = flow / m_number_of_lane / m_length; // get the density in veh/mile
+  TFlt _rho = flow / m_length;                    // get the density in veh/mile
   TFlt _rhoj = m_k_j_car;                         // get the jam density
   TFlt _rhok = m_k_C_car;                         // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
@@ -1914,7 +1914,7 @@ TFlt
 MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_truck (TFlt flow)
 {
   TFlt _cost, _spd;
-  TFlt _rho = flow / m_number_of_lane / m_length; // get the density in veh/mile
+  TFlt _rho = flow / m_length;                    // get the density in veh/mile
   TFlt _rhoj = m_k_j_truck;                       // get the jam density
   TFlt _rhok = m_k_C_truck;                       // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
-- 
2.43.0


From fd0ee6b9f27e331101d1218670d038fecd1f5496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 17/61] fix: count vehicles waiting at the entrance in the
 volume of point queues

---
 src/dlink.cpp      | 4 +++-
 src/multiclass.cpp | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 43b3349..400f933 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -551,7 +551,9 @@ MNM_Dlink_Pq::clear_incoming_array (TInt timestamp)
       // 0
       m_veh_queue.push_back (std::pair<MNM_Veh *, TInt> (_veh, TInt (0)));
     }
-  m_volume = TInt (m_finished_array.size () + m_veh_queue.size ());
+  // vehicles that did not get in in this interval are on the link, too
+  m_volume = TInt (m_finished_array.size () + m_veh_queue.size ()
+                   + m_incoming_array.size ());
   // move_veh_queue(&m_incoming_array, , m_incoming_array.size());
 
   // m_cell_array[0] -> m_volume = m_cell_array[0] ->m_veh_queue.size();
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 3018eec..ac8897c 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2053,6 +2053,15 @@ MNM_Dlink_Pq_Multiclass::clear_incoming_array (TInt timestamp)
       if (_veh_multiclass->m_class == 1)
         m_volume_truck += 1;
     }
+  // vehicles that did not get in in this interval are on the link, too
+  for (auto _veh_it : m_incoming_array)
+    {
+      auto *_veh_multiclass = dynamic_cast<MNM_Veh_Multiclass *> (_veh_it);
+      if (_veh_multiclass->m_class == 0)
+        m_volume_car += 1;
+      if (_veh_multiclass->m_class == 1)
+        m_volume_truck += 1;
+    }
   // printf("car: %d, truck: %d\n", m_volume_car, m_volume_truck);
   return 0;
 }
-- 
2.43.0


From 08c30a7e5d4ff8e44e356c37c6bb1820bb570dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:24 +0000
Subject: [PATCH 18/61] fix: do not visit the graph when a shortest-path tree
 is destroyed

A two-class instance destroys its trees after the network they refer to.
---
 src/shortest_path.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 4c097bb..95e6d6f 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -569,14 +569,14 @@ MNM_TDSP_Tree::MNM_TDSP_Tree (TInt dest_node_ID, macposts::Graph &graph,
 
 MNM_TDSP_Tree::~MNM_TDSP_Tree ()
 {
-  TInt _node_ID;
-  for (const auto &n : m_graph.nodes ())
+  // not by the nodes of the graph, which may be gone already
+  for (auto _it : m_dist)
     {
-      _node_ID = m_graph.get_id (n);
-      if (m_dist[_node_ID] != nullptr)
-        delete[] m_dist[_node_ID];
-      if (m_tree[_node_ID] != nullptr)
-        delete[] m_tree[_node_ID];
+      delete[] _it.second;
+    }
+  for (auto _it : m_tree)
+    {
+      delete[] _it.second;
     }
   m_dist.clear ();
   m_tree.clear ();
-- 
2.43.0


From d369e44cb120945cfdb69be6a1b25c73ad943830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:24 +0000
Subject: [PATCH 19/61] fix: refuse two-class link costs for routing types
 without a value of time

---
 macposts/_ext/mcdta.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index d8f700e..330da10 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -863,8 +863,13 @@ Mcdta::build_link_cost_map (bool with_congestion_indicator)
 {
   MNM_Dlink_Multiclass *_link;
   // TODO: what if not hybrid routing, better way to get vot
-  TFlt _vot = dynamic_cast<MNM_Routing_Biclass_Hybrid *> (m_mcdta->m_routing)
-                ->m_routing_adaptive->m_vot
+  auto *_routing
+    = dynamic_cast<MNM_Routing_Biclass_Hybrid *> (m_mcdta->m_routing);
+  if (_routing == nullptr)
+    {
+      throw std::runtime_error ("unsupported routing type");
+    }
+  TFlt _vot = _routing->m_routing_adaptive->m_vot
               * m_mcdta->m_unit_time; // money / second -> money / interval
   for (auto _link_it : m_mcdta->m_link_factory->m_link_map)
     {
-- 
2.43.0


From 69b69cdc4fb6b8598b19e5974da1f9d4e8d71453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:19 +0000
Subject: [PATCH 20/61] fix: initialise the perceived densities of two-class
 link queues

The first interval's supply was computed from indeterminate values.
---
 src/multiclass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index ac8897c..522fc8d 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1370,6 +1370,9 @@ MNM_Dlink_Lq_Multiclass::MNM_Dlink_Lq_Multiclass (
   m_space_fraction_car = TFlt (1);
   m_space_fraction_truck = TFlt (0);
 
+  m_perceived_density_car = TFlt (0);
+  m_perceived_density_truck = TFlt (0);
+
   m_flow_scalar = flow_scalar;
   m_unit_time = unit_time;
   m_veh_convert_factor = veh_convert_factor;
-- 
2.43.0


From d3c90b2b7f2399d320d6b1194817ab5fa2c5c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:34 +0000
Subject: [PATCH 21/61] fix: size the link cost tables for every loading

Iterations of the equilibrium without a fixed horizon load for different
numbers of intervals, and a longer one overran the tables of the first.
---
 macposts/_ext/dta.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 192e3f5..d9e8993 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1007,25 +1007,19 @@ Dta::build_link_cost_map (bool with_congestion_indicator)
     {
       // #pragma omp task
       _link = _link_it.second;
-      if (m_link_tt_map.find (_link_it.first) == m_link_tt_map.end ())
-        {
-          m_link_tt_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
-        }
-      if (m_link_cost_map.find (_link_it.first) == m_link_cost_map.end ())
-        {
-          m_link_cost_map[_link_it.first]
-            = new TFlt[get_cur_loading_interval ()];
-        }
+      // loadings may differ in length
+      delete[] m_link_tt_map[_link_it.first];
+      m_link_tt_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
+      delete[] m_link_cost_map[_link_it.first];
+      m_link_cost_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
       if (with_congestion_indicator)
         {
           // std::cout << "car, interval: " << i << ", link: " << _link_it.first
           // << ", tt: " << m_link_tt_map[_link_it.first][i] << ", fftt: " <<
           // _link -> get_link_freeflow_tt_car() / m_unit_time << "\n";
-          if (m_link_congested.find (_link_it.first) == m_link_congested.end ())
-            {
-              m_link_congested[_link_it.first]
-                = new bool[get_cur_loading_interval ()];
-            }
+          delete[] m_link_congested[_link_it.first];
+          m_link_congested[_link_it.first]
+            = new bool[get_cur_loading_interval ()];
         }
 
       std::cout << "********************** build_link_cost_map link "
-- 
2.43.0


From 4cf7522146e1b1c11dc9d8c83f62b61057b25a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:44 +0000
Subject: [PATCH 22/61] fix: do not take more flow from a path than it has

Equilibrium with departure time choice took the same amount from every
path when it found a new one, and the flows became negative.
---
 src/due.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index ebb3fa9..8d698bd 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -646,14 +646,16 @@ MNM_Due_Msa::update_path_table (MNM_Dta *dta, int iter)
 
               // Original
               _path->allocate_buffer (m_total_assign_inter);
-              _path->m_buffer[_best_assign_col]
-                += m_step_size / TFlt (iter + 1);
               _len = TFlt (_path_set->m_path_vec.size ());
               for (auto tmp_path : _path_set->m_path_vec)
                 {
-                  tmp_path->m_buffer[_best_assign_col]
-                    -= m_step_size / TFlt (iter + 1) / _len;
+                  // no more than there is
+                  _tmp_change = std::min (tmp_path->m_buffer[_best_assign_col],
+                                          m_step_size / TFlt (iter + 1) / _len);
+                  tmp_path->m_buffer[_best_assign_col] -= _tmp_change;
+                  _tot_change += _tmp_change;
                 }
+              _path->m_buffer[_best_assign_col] += _tot_change;
               _path_set->m_path_vec.push_back (_path);
 
               // Modified by Zou
-- 
2.43.0


From 7a5b51345fe645dc207fd3b44f2067b9d23c43cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:09 +0000
Subject: [PATCH 23/61] fix: keep the demand when gradient projection meets a
 costlier path without flow

The unused path could not give the flow that the others gained.
---
 src/due.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index 8d698bd..560d3ee 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -807,7 +807,7 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
   MNM_Path *_path;
   MNM_Pathset *_path_set;
   TFlt _tot_path_cost, _tmp_change, _tau, _tmp_tt, _tmp_cost, _min_flow;
-  bool _exist, _flg;
+  bool _exist, _flg, _use_best;
 
   // assume build_link_cost_map(dta) and update_path_table_cost(dta) are invoked
   // beforehand
@@ -870,10 +870,34 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
                   _exist = false;
                 }
 
+              // a best path without flow cannot give any, so it takes part only
+              // if it costs less than the used ones on average
+              _use_best = true;
+              for (auto _tmp_path : _path_set->m_path_vec)
+                {
+                  if (_tmp_path->m_buffer[_col] > 0)
+                    {
+                      _tot_path_cost
+                        += _tmp_path->m_travel_disutility_vec[_col];
+                      _tot_nonzero_path += 1;
+                    }
+                }
+              for (auto _tmp_path : _path_set->m_path_vec)
+                {
+                  if ((*_tmp_path == *_path) && (_tot_nonzero_path > 0))
+                    {
+                      _use_best = _tmp_path->m_travel_disutility_vec[_col]
+                                  < _tot_path_cost / _tot_nonzero_path;
+                    }
+                }
+
               // average path cost
+              _tot_path_cost = 0.0;
+              _tot_nonzero_path = 0;
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if ((_use_best && *_tmp_path == *_path)
+                      || (_tmp_path->m_buffer[_col] > 0))
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
@@ -898,7 +922,8 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
               // minimum tau
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if ((_use_best && *_tmp_path == *_path)
+                      || (_tmp_path->m_buffer[_col] > 0))
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
@@ -930,7 +955,8 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
               // flow adjustment
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if ((_use_best && *_tmp_path == *_path)
+                      || (_tmp_path->m_buffer[_col] > 0))
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
-- 
2.43.0


From 598f45205c083911fa752851b23d94680d079416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:54 +0000
Subject: [PATCH 24/61] fix: choose the ends of paths that cover a connector
 link

A link that leaves an origin or enters a destination has no shortest-path
tree on that side, and the search for an OD pair dereferenced the missing
entry. generate_paths_to_cover_links also took the end nodes of another
link, the registered one with the same position.
---
 macposts/_ext/dta.cpp   | 25 +++++++++++++++++--------
 macposts/_ext/mcdta.cpp | 41 ++++++++++++++++++++++++-----------------
 2 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index d9e8993..ed23605 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1354,6 +1354,17 @@ Dta::are_registered_links_in_registered_paths ()
   return result;
 }
 
+// whether the tree leads from node_ID to root_ID; there is no tree if root_ID
+// is itself an origin or a destination
+static bool
+is_connected (const std::unordered_map<TInt, TInt> &tree, TInt node_ID,
+              TInt root_ID)
+{
+  if (tree.empty ())
+    return node_ID == root_ID;
+  return tree.find (node_ID)->second != -1;
+}
+
 py::array_t<int>
 Dta::generate_paths_to_cover_registered_links ()
 {
@@ -1482,14 +1493,12 @@ Dta::generate_paths_to_cover_registered_links ()
               for (auto _it_it : pair_ptrs_2)
                 {
                   _dest = _it_it.first;
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (is_connected (_shortest_path_tree,
+                                    _origin->m_origin_node->m_node_ID,
+                                    _from_node_ID)
+                      && is_connected (_shortest_path_tree_reversed,
+                                       _dest->m_dest_node->m_node_ID,
+                                       _to_node_ID))
                     {
                       _flg = true;
                       break;
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 330da10..26b952d 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -2469,6 +2469,17 @@ Mcdta::are_registered_links_in_registered_paths ()
   return result;
 }
 
+// whether the tree leads from node_ID to root_ID; there is no tree if root_ID
+// is itself an origin or a destination
+static bool
+is_connected (const std::unordered_map<TInt, TInt> &tree, TInt node_ID,
+              TInt root_ID)
+{
+  if (tree.empty ())
+    return node_ID == root_ID;
+  return tree.find (node_ID)->second != -1;
+}
+
 py::array_t<int>
 Mcdta::generate_paths_to_cover_registered_links ()
 {
@@ -2600,14 +2611,12 @@ Mcdta::generate_paths_to_cover_registered_links ()
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (is_connected (_shortest_path_tree,
+                                    _origin->m_origin_node->m_node_ID,
+                                    _from_node_ID)
+                      && is_connected (_shortest_path_tree_reversed,
+                                       _dest->m_dest_node->m_node_ID,
+                                       _to_node_ID))
                     {
                       _flg = true;
                       break;
@@ -2764,7 +2773,7 @@ Mcdta::generate_paths_to_cover_links (Input_Array<int> links, int max_iter)
   for (int i = 0; i < num_links; ++i)
     {
       // generate new path including this link
-      auto &&sd = m_mcdta->m_graph.get_endpoints (m_link_vec[i]->m_link_ID);
+      auto &&sd = m_mcdta->m_graph.get_endpoints (links_ptr[i]);
       _from_node_ID = m_mcdta->m_graph.get_id (sd.first);
       _to_node_ID = m_mcdta->m_graph.get_id (sd.second);
 
@@ -2837,14 +2846,12 @@ Mcdta::generate_paths_to_cover_links (Input_Array<int> links, int max_iter)
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (is_connected (_shortest_path_tree,
+                                    _origin->m_origin_node->m_node_ID,
+                                    _from_node_ID)
+                      && is_connected (_shortest_path_tree_reversed,
+                                       _dest->m_dest_node->m_node_ID,
+                                       _to_node_ID))
                     {
                       _flg = true;
                       break;
-- 
2.43.0


From c70d27783036473460465adf7edab684e7e6393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:18 +0000
Subject: [PATCH 25/61] fix: apply time-dependent attributes to two-class point
 queues

The link kept the capacity and the free-flow time it was built with.
---
 src/multiclass.cpp | 20 ++++++++++++++++++++
 src/multiclass.h   |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 522fc8d..70cfef4 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1992,6 +1992,26 @@ MNM_Dlink_Pq_Multiclass::MNM_Dlink_Pq_Multiclass (
 
 MNM_Dlink_Pq_Multiclass::~MNM_Dlink_Pq_Multiclass () { m_veh_pool.clear (); }
 
+int
+MNM_Dlink_Pq_Multiclass::modify_property (TInt number_of_lane, TFlt length,
+                                          TFlt lane_hold_cap_car,
+                                          TFlt lane_hold_cap_truck,
+                                          TFlt lane_flow_cap_car,
+                                          TFlt lane_flow_cap_truck,
+                                          TFlt ffs_car, TFlt ffs_truck)
+{
+  MNM_Dlink_Multiclass::modify_property (number_of_lane, length,
+                                         lane_hold_cap_car, lane_hold_cap_truck,
+                                         lane_flow_cap_car, lane_flow_cap_truck,
+                                         ffs_car, ffs_truck);
+
+  m_lane_hold_cap = lane_hold_cap_car;
+  m_lane_flow_cap = lane_flow_cap_car;
+  m_hold_cap = m_lane_hold_cap * TFlt (number_of_lane) * m_length;
+  m_max_stamp = MNM_Ults::round_down_time (m_length / (ffs_car * m_unit_time));
+  return 0;
+}
+
 TFlt
 MNM_Dlink_Pq_Multiclass::get_link_supply ()
 {
diff --git a/src/multiclass.h b/src/multiclass.h
index 859edee..227008b 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -277,6 +277,10 @@ public:
                            TFlt ffs_car, TFlt ffs_truck, TFlt unit_time,
                            TFlt veh_convert_factor, TFlt flow_scalar);
   virtual ~MNM_Dlink_Pq_Multiclass () override;
+  virtual int modify_property (TInt number_of_lane, TFlt length,
+                               TFlt lane_hold_cap_car, TFlt lane_hold_cap_truck,
+                               TFlt lane_flow_cap_car, TFlt lane_flow_cap_truck,
+                               TFlt ffs_car, TFlt ffs_truck) override;
   virtual int evolve (TInt timestamp) override;
   virtual TFlt get_link_supply () override;
   virtual int clear_incoming_array (TInt timestamp) override;
-- 
2.43.0


From 7067ce482a8a4770cae0584f2f84820aaffe7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:29 +0000
Subject: [PATCH 26/61] fix: count the trips on observed links by vehicle, not
 by address

Finished vehicles are freed and their addresses used again, so that
different vehicles counted as one trip.
---
 src/multiclass.cpp | 8 ++++----
 src/multiclass.h   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 70cfef4..f8f15e5 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -5984,8 +5984,8 @@ MNM_Cumulative_Emission_Multiclass::MNM_Cumulative_Emission_Multiclass (
 
   m_ev_label_truck = ev_label_truck;
 
-  m_car_set = std::unordered_set<MNM_Veh *> ();
-  m_truck_set = std::unordered_set<MNM_Veh *> ();
+  m_car_set = std::unordered_set<TInt> ();
+  m_truck_set = std::unordered_set<TInt> ();
 }
 
 MNM_Cumulative_Emission_Multiclass::~MNM_Cumulative_Emission_Multiclass () { ; }
@@ -6170,11 +6170,11 @@ MNM_Cumulative_Emission_Multiclass::update (MNM_Veh_Factory *veh_factory)
         {
           if (_veh_multiclass->m_class == 0)
             {
-              m_car_set.insert (_veh_multiclass);
+              m_car_set.insert (pair_it.first);
             }
           if (_veh_multiclass->m_class == 1)
             {
-              m_truck_set.insert (_veh_multiclass);
+              m_truck_set.insert (pair_it.first);
             }
         }
     }
diff --git a/src/multiclass.h b/src/multiclass.h
index 227008b..7a326dc 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -802,8 +802,8 @@ public:
 
   TInt m_ev_label_truck;
 
-  std::unordered_set<MNM_Veh *> m_car_set;
-  std::unordered_set<MNM_Veh *> m_truck_set;
+  std::unordered_set<TInt> m_car_set;
+  std::unordered_set<TInt> m_truck_set;
 };
 
 /******************************************************************************************************************
-- 
2.43.0


From 961c784b5342394a7d54718cbe05029841cf6228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:34 +0000
Subject: [PATCH 27/61] fix: read the passenger before deleting it

The factory looked at the park-and-ride flag of the passenger it had just freed.
---
 src/multimodal.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index cd3bcf8..218eb49 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -1845,10 +1845,6 @@ MNM_Passenger_Factory::remove_finished_passenger (MNM_Passenger *passenger,
   IAssert (passenger->m_finish_time > passenger->m_start_time);
   m_total_time_passenger
     += (passenger->m_finish_time - passenger->m_start_time);
-  if (del)
-    {
-      delete passenger;
-    }
 
   m_finished_passenger += 1;
   m_enroute_passenger -= 1;
@@ -1857,6 +1853,10 @@ MNM_Passenger_Factory::remove_finished_passenger (MNM_Passenger *passenger,
       m_finished_passenger_pnr += 1;
       m_enroute_passenger_pnr -= 1;
     }
+  if (del)
+    {
+      delete passenger;
+    }
   IAssert (m_num_passenger >= m_num_passenger_pnr);
   IAssert (m_num_passenger == m_finished_passenger + m_enroute_passenger);
   IAssert (m_num_passenger_pnr
-- 
2.43.0


From 1d5925554ada9ae95b1ea36a5586951e5334e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:34 +0000
Subject: [PATCH 28/61] fix: initialise the waiting time of a passenger

---
 src/multimodal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 218eb49..05b0333 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -1691,6 +1691,7 @@ MNM_Passenger::MNM_Passenger (TInt ID, TInt start_time, TInt passenger_type)
   m_start_time = start_time;
   m_finish_time = -1; // use to calculate number of still running passenger
   m_assign_interval = -1;
+  m_waiting_time = TFlt (0);
   m_driving_path = nullptr;
   m_transit_path = nullptr;
   m_pnr_path = nullptr;
-- 
2.43.0


From 55716893705488c5b6c685dea2b3700b42308556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:39 +0000
Subject: [PATCH 29/61] fix: count the vehicles driving on multimodal point
 queues

The link kept them in a queue of its own, so that volumes and emissions
saw only the vehicles waiting at its end.
---
 src/multimodal.cpp | 21 +++++++++++++--------
 src/multimodal.h   |  1 -
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 05b0333..b094943 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -3773,15 +3773,12 @@ MNM_Dlink_Pq_Multimodal::MNM_Dlink_Pq_Multimodal (
                                                         flow_scalar)
 {
   m_link_type = MNM_TYPE_PQ_MULTIMODAL;
-  // original unordered_map is replaced with deque to track the order of buses
-  m_veh_queue = std::deque<std::pair<MNM_Veh *, TInt>> ();
   m_busstop_vec = std::vector<MNM_Busstop_Virtual *> ();
   m_busstop_timeloc_map = std::unordered_map<MNM_Busstop_Virtual *, TInt> ();
 }
 
 MNM_Dlink_Pq_Multimodal::~MNM_Dlink_Pq_Multimodal ()
 {
-  m_veh_queue.clear ();
   m_busstop_vec.clear ();
   m_busstop_timeloc_map.clear ();
 }
@@ -3863,8 +3860,7 @@ MNM_Dlink_Pq_Multimodal::clear_incoming_array (TInt timestamp)
       // so we use m_max_stamp - 1 in link -> evolve() to ensure vehicle spends
       // m_max_stamp in this link when m_max_stamp > 1 and 1 when m_max_stamp =
       // 0
-      m_veh_queue.emplace_back (_veh, TInt (0));
-      // m_veh_pool.insert({_veh, TInt(0)});
+      m_veh_pool.emplace_back (_veh, TInt (0));
       if (_veh->m_class == 0)
         {
           // printf("car\n");
@@ -3954,6 +3950,15 @@ MNM_Dlink_Pq_Multimodal::clear_incoming_array (TInt timestamp)
       if (_veh_multimodal->m_class == 1)
         m_volume_truck += 1;
     }
+  // vehicles that did not get in in this interval are on the link, too
+  for (auto _veh_it : m_incoming_array)
+    {
+      auto *_veh_multimodal = dynamic_cast<MNM_Veh_Multimodal *> (_veh_it);
+      if (_veh_multimodal->m_class == 0)
+        m_volume_car += 1;
+      if (_veh_multimodal->m_class == 1)
+        m_volume_truck += 1;
+    }
   // printf("car: %d, truck: %d\n", m_volume_car, m_volume_truck);
   return 0;
 }
@@ -3970,8 +3975,8 @@ MNM_Dlink_Pq_Multimodal::evolve (TInt timestamp)
 
   //    std::unordered_map<MNM_Veh*, TInt>::iterator _que_it =
   //    m_veh_pool.begin(); while (_que_it != m_veh_pool.end())
-  auto _que_it = m_veh_queue.begin ();
-  while (_que_it != m_veh_queue.end ())
+  auto _que_it = m_veh_pool.begin ();
+  while (_que_it != m_veh_pool.end ())
     {
       _veh = _que_it->first;
       _veh_multimodal = dynamic_cast<MNM_Veh_Multimodal *> (_veh);
@@ -4054,7 +4059,7 @@ MNM_Dlink_Pq_Multimodal::evolve (TInt timestamp)
                 {
                   _num_truck += 1;
                 }
-              _que_it = m_veh_queue.erase (_que_it); // c++ 11
+              _que_it = m_veh_pool.erase (_que_it); // c++ 11
               //                _que_it = m_veh_pool.erase(_que_it); //c++ 11
             }
           else
diff --git a/src/multimodal.h b/src/multimodal.h
index cef8be9..2a92488 100644
--- a/src/multimodal.h
+++ b/src/multimodal.h
@@ -608,7 +608,6 @@ public:
   virtual TFlt get_link_flow_car () override;
   virtual TFlt get_link_flow_truck () override;
 
-  std::deque<std::pair<MNM_Veh *, TInt>> m_veh_queue;
   // for multimodal with busstops on the link
   DLink_type_multimodal m_link_type;
   std::vector<MNM_Busstop_Virtual *> m_busstop_vec;
-- 
2.43.0


From 97de05f3dfb759226bac4c47731f9ce4107f23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:39 +0000
Subject: [PATCH 30/61] fix: skip unreachable parking lots in adaptive
 park-and-ride routing

---
 src/multimodal.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index b094943..1c6112b 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -7026,7 +7026,11 @@ MNM_Routing_Multimodal_Adaptive::find_mid_destination_for_pnr (
       _shortest_path_tree = m_driving_table->find (_mid_dest)->second;
       _path = MNM::extract_path (origin_node_ID, _mid_dest_node_ID,
                                  *_shortest_path_tree, m_driving_graph);
-      IAssert (_path != nullptr);
+      if (_path == nullptr)
+        {
+          // cannot drive to this parking lot from here
+          continue;
+        }
       _path_tt
         += MNM::get_path_tt_snapshot (_path,
                                       m_statistics->m_record_interval_tt);
@@ -7037,7 +7041,11 @@ MNM_Routing_Multimodal_Adaptive::find_mid_destination_for_pnr (
       _shortest_path_tree = m_transit_table->find (_final_dest)->second;
       _path = MNM::extract_path (_mid_dest_node_ID, final_dest_node_ID,
                                  *_shortest_path_tree, m_transit_graph);
-      IAssert (_path != nullptr);
+      if (_path == nullptr)
+        {
+          // no transit from this parking lot to the destination
+          continue;
+        }
       _path_tt
         += MNM::get_path_tt_snapshot (_path,
                                       m_statistics
-- 
2.43.0


From b4186a58aae526510ace636fb2e0d77fef59b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:30 +0000
Subject: [PATCH 31/61] fix: report every mode when some modes are switched off

---
 src/multimodal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 1c6112b..6db22a0 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -15395,7 +15395,7 @@ MNM_MM_Due::check_od_mode_connectivity ()
                                 int, bool>> (_dest_node_ID,
                                              std::unordered_map<int, bool> ()));
                 }
-              for (auto _mode : m_mode_vec)
+              for (auto _mode : { driving, transit, pnr })
                 {
                   if (m_od_mode_connectivity.find (_origin_node_ID)
                         ->second.find (_dest_node_ID)
-- 
2.43.0


From fd58e05abca2c8ca71a4eaae9bbb8a0d6b2172f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:43 +0000
Subject: [PATCH 32/61] fix: release the multimodal time and cost tables as
 arrays

---
 src/multimodal.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 6db22a0..f11e138 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -15137,73 +15137,73 @@ MNM_MM_Due::~MNM_MM_Due ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _tt_it : m_link_tt_map_truck)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map_truck.clear ();
 
   for (auto _tt_it : m_transitlink_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_transitlink_tt_map.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _cost_it : m_link_cost_map_truck)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map_truck.clear ();
 
   for (auto _cost_it : m_transitlink_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_transitlink_cost_map.clear ();
 
   for (auto _it : m_link_congested_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_car.clear ();
 
   for (auto _it : m_link_congested_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_truck.clear ();
 
   for (auto _it : m_transitlink_congested_passenger)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_transitlink_congested_passenger.clear ();
 
   for (auto _it : m_queue_dissipated_time_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_car.clear ();
 
   for (auto _it : m_queue_dissipated_time_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_truck.clear ();
 
   for (auto _it : m_queue_dissipated_time_passenger)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_passenger.clear ();
 
-- 
2.43.0


From 3b8b239858df2fdddbe68cc09ccda45961a04a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:43 +0000
Subject: [PATCH 33/61] fix: load multimodal networks without park-and-ride or
 transit paths

---
 src/multimodal.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index f11e138..e41b3d4 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -5593,6 +5593,11 @@ MNM_Routing_PnR_Fixed::~MNM_Routing_PnR_Fixed ()
 int
 MNM_Routing_PnR_Fixed::change_choice_portion (TInt routing_interval)
 {
+  // there is no path table without paths
+  if (m_pnr_path_table == nullptr)
+    {
+      return 0;
+    }
   // m_veh_class starts from 0 (car) to 1 (truck)
   MNM::copy_buffer_to_p (m_pnr_path_table, routing_interval);
   MNM::normalize_path_table_p (m_pnr_path_table);
@@ -5896,6 +5901,11 @@ int
 MNM_Routing_PassengerBusTransit_Fixed::change_choice_portion (
   TInt routing_interval)
 {
+  // there is no path table without paths
+  if (m_bustransit_path_table == nullptr)
+    {
+      return 0;
+    }
   MNM::copy_buffer_to_p (m_bustransit_path_table, routing_interval);
   MNM::normalize_path_table_p (m_bustransit_path_table);
   return 0;
-- 
2.43.0


From 87dfaf5e299f9dc329f220ca7bf401fa3d7ed0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:11 +0000
Subject: [PATCH 34/61] fix: let passengers wait for implicit buses

---
 src/multimodal.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index e41b3d4..f01099d 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -125,7 +125,9 @@ MNM_Busstop_Physical::evolve (TInt timestamp)
             {
               throw std::runtime_error ("Something wrong in passenger routing");
             }
-          if (_out_walking_link->m_walking_type == "boarding")
+          // with implicit buses the wait takes place on the boarding link
+          if (_out_walking_link->m_walking_type == "boarding"
+              && _out_walking_link->m_historical_bus_waiting_time <= 0)
             {
               _out_walking_link->m_finished_array.push_back (_passenger);
             }
@@ -226,7 +228,9 @@ MNM_Busstop_Physical::evolve (TInt timestamp)
             {
               throw std::runtime_error ("Something wrong in passenger routing");
             }
-          if (_out_walking_link->m_walking_type == "boarding")
+          // with implicit buses the wait takes place on the boarding link
+          if (_out_walking_link->m_walking_type == "boarding"
+              && _out_walking_link->m_historical_bus_waiting_time <= 0)
             {
               _out_walking_link->m_finished_array.push_back (_passenger);
             }
@@ -3715,7 +3719,8 @@ MNM_Walking_Link::evolve (TInt timestamp)
     }
   else if (m_walking_type == "boarding")
     {
-      _max_stamp = m_historical_bus_waiting_time;
+      // the bus leaves in the interval in which the wait is over
+      _max_stamp = m_historical_bus_waiting_time + 1;
     }
   else
     {
-- 
2.43.0


From 0db6cfc3b7ae267c9afcf807f60d8f2ab77a733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:08 +0000
Subject: [PATCH 35/61] fix: count the time of unfinished trucks for trucks,
 not for buses

---
 macposts/_ext/mmdta.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 41fa9b3..d48eb9f 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -1731,13 +1731,15 @@ Mmdta::get_travel_stats ()
           if (_veh->m_bus_route_ID == TInt (-1))
             {
               _count_truck += 1;
+              _tot_tt_truck += (_end_time - _veh->m_start_time)
+                               * m_mmdta->m_unit_time / 3600.0;
             }
           else
             {
               _count_bus += 1;
+              _tot_tt_bus += (_end_time - _veh->m_start_time)
+                             * m_mmdta->m_unit_time / 3600.0;
             }
-          _tot_tt_bus
-            += (_end_time - _veh->m_start_time) * m_mmdta->m_unit_time / 3600.0;
         }
     }
 
-- 
2.43.0


From 08d6187e03d843b5fa9a2a4e33a6994fa1399cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:20 +0000
Subject: [PATCH 36/61] fix: read links and intervals of queue queries as
 integers

---
 macposts/_ext/mmdta.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index d48eb9f..92a3b81 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -6767,8 +6767,8 @@ Mmdta::get_queue_veh_each_link (Input_Array<int> useful_links,
   auto result = py::array_t<double> (new_shape);
   auto result_buf = result.request ();
   double *result_ptr = (double *) result_buf.ptr;
-  double *intervals_ptr = (double *) intervals_buf.ptr;
-  double *links_ptr = (double *) links_buf.ptr;
+  int *intervals_ptr = (int *) intervals_buf.ptr;
+  int *links_ptr = (int *) links_buf.ptr;
 
   for (int t = 0; t < num_intervals; ++t)
     {
@@ -6819,8 +6819,8 @@ Mmdta::get_queue_passenger_each_link (Input_Array<int> useful_links,
   auto result = py::array_t<double> (new_shape);
   auto result_buf = result.request ();
   double *result_ptr = (double *) result_buf.ptr;
-  double *intervals_ptr = (double *) intervals_buf.ptr;
-  double *links_ptr = (double *) links_buf.ptr;
+  int *intervals_ptr = (int *) intervals_buf.ptr;
+  int *links_ptr = (int *) links_buf.ptr;
 
   for (int t = 0; t < num_intervals; ++t)
     {
-- 
2.43.0


From 18f2f1c0858ff11ec2f7dcfedca8f05fc72737b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:45 +0000
Subject: [PATCH 37/61] fix: compare the average link time with its bound in
 seconds

get_path_tt_car and get_path_tt_truck multiplied the time, already in
seconds, with the length of an interval once more before comparing it with
the upper bound, so that ordinary congested times were replaced by the bound.
---
 macposts/_ext/mmdta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 92a3b81..4d16d17 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -4419,7 +4419,7 @@ Mmdta::get_path_tt_car (Input_Array<int> link_IDs,
                                          m_mmdta->m_unit_time,
                                          m_mmdta->m_current_loading_interval)
                   * m_mmdta->m_unit_time;
-              if (_tmp * m_mmdta->m_unit_time
+              if (_tmp
                   > TT_UPPER_BOUND * (_mclink->m_length / _mclink->m_ffs_car))
                 {
                   _tmp
@@ -4479,7 +4479,7 @@ Mmdta::get_path_tt_truck (Input_Array<int> link_IDs,
                                            m_mmdta->m_unit_time,
                                            m_mmdta->m_current_loading_interval)
                   * m_mmdta->m_unit_time;
-              if (_tmp * m_mmdta->m_unit_time
+              if (_tmp
                   > TT_UPPER_BOUND * (_mclink->m_length / _mclink->m_ffs_truck))
                 {
                   _tmp
-- 
2.43.0


From 420933db2546a34ecba00fda053cf906a1068449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:45 +0000
Subject: [PATCH 38/61] fix: wait for the bus from a whole interval when
 averaging bus times

Averages over an interval ask at points between whole intervals. The waiting
time then ended between two entries of the curve of the stop and the bus it
led to was not found, which ended in an exception.
---
 src/multimodal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index f01099d..4aef1c1 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -11067,6 +11067,8 @@ get_travel_time_bus (MNM_Bus_Link *link, TFlt start_time, TFlt unit_interval,
                                 "m_N_in_bus cumulative curve is not installed");
     }
 
+  // the waiting time counts from a whole interval
+  start_time = round (start_time);
   TFlt _wait_time
     = get_bus_waiting_time (link->m_from_busstop, start_time, unit_interval,
                             end_loading_timestamp, return_inf);
-- 
2.43.0


From 312bccb1ad323bb7607d501f14e10febd7b12d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:55 +0000
Subject: [PATCH 39/61] fix: write paths whose costs have not been computed

time_vec_to_string and its siblings removed the last character of an empty
string, so save_passenger_path_table crashed before a cost evaluation.
---
 src/path.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/path.cpp b/src/path.cpp
index b7c6a82..68b0c24 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -122,6 +122,10 @@ std::string
 MNM_Path::time_vec_to_string ()
 {
   std::string _s;
+  if (m_travel_time_vec.empty ())
+    {
+      return "\n";
+    }
   for (TFlt _v : m_travel_time_vec)
     {
       _s += std::to_string (_v) + " ";
@@ -135,6 +139,10 @@ std::string
 MNM_Path::cost_vec_to_string ()
 {
   std::string _s;
+  if (m_travel_cost_vec.empty ())
+    {
+      return "\n";
+    }
   for (TFlt _v : m_travel_cost_vec)
     {
       _s += std::to_string (_v) + " ";
@@ -148,6 +156,10 @@ std::string
 MNM_Path::disutility_vec_to_string ()
 {
   std::string _s;
+  if (m_travel_disutility_vec.empty ())
+    {
+      return "\n";
+    }
   for (TFlt _v : m_travel_disutility_vec)
     {
       _s += std::to_string (_v) + " ";
-- 
2.43.0


From 97bb555cc2858bf16d4dc2936fdefd1edcd25641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:56 +0000
Subject: [PATCH 40/61] fix: name the origin of every pair in
 get_od_mode_connectivity

Only the row of an origin's first destination got the origin; the others
kept uninitialised memory.
---
 macposts/_ext/mmdta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 4d16d17..de3b11e 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -4880,9 +4880,9 @@ Mmdta::get_od_mode_connectivity ()
   int i = 0;
   for (const auto &_o_it : m_mmdue->m_od_mode_connectivity)
     {
-      result_ptr[i * _num_col] = _o_it.first;
       for (const auto &_d_it : _o_it.second)
         {
+          result_ptr[i * _num_col] = _o_it.first;
           result_ptr[i * _num_col + 1] = _d_it.first;
           for (auto _mode_it : _d_it.second)
             {
-- 
2.43.0


From 727111aed048d8d9da429e156a8b7791d4ce6d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:56 +0000
Subject: [PATCH 41/61] fix: keep the two parts of park-and-ride paths that
 cover links

The path owns them, and they were deleted right after it was made.
---
 macposts/_ext/mmdta.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index de3b11e..8bca2bc 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -2988,8 +2988,6 @@ Mmdta::generate_paths_to_cover_registered_links_bus_walking ()
                                             _mid_dest_node_ID, _path_1, _path);
               _pnr_path->allocate_buffer (
                 m_mmdta->m_config->get_int ("max_interval"));
-              delete _path_1;
-              delete _path;
               dynamic_cast<MNM_Routing_Multimodal_Hybrid *> (m_mmdta->m_routing)
                 ->m_routing_car_pnr_fixed->m_pnr_path_table
                 ->find (_origin->m_origin_node->m_node_ID)
@@ -3323,8 +3321,6 @@ Mmdta::generate_paths_to_cover_registered_links_bus_walking ()
                                             _mid_dest_node_ID, _path_1, _path);
               _pnr_path->allocate_buffer (
                 m_mmdta->m_config->get_int ("max_interval"));
-              delete _path_1;
-              delete _path;
               dynamic_cast<MNM_Routing_Multimodal_Hybrid *> (m_mmdta->m_routing)
                 ->m_routing_car_pnr_fixed->m_pnr_path_table
                 ->find (_origin->m_origin_node->m_node_ID)
-- 
2.43.0


From a2ec90705d5ed8a6a827e1aa3af349c0efda2eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:56 +0000
Subject: [PATCH 42/61] fix: choose the ends of multimodal paths that cover a
 link

The ends of bus and walking links were looked up in the driving graph, the
wrong end was tested for onward links, and a link at the border of the
network has no shortest-path tree on that side, so the search for an OD pair
dereferenced a missing entry.
---
 macposts/_ext/mmdta.cpp | 96 +++++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 46 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 8bca2bc..55a2e66 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -2401,6 +2401,18 @@ Mmdta::are_registered_links_in_registered_paths_walking ()
   return result;
 }
 
+// whether the tree leads from node_ID to root_ID; there is no tree if root_ID
+// is itself an end of the network, and no entry for nodes outside of it
+static bool
+is_connected (const std::unordered_map<TInt, TInt> &tree, TInt node_ID,
+              TInt root_ID)
+{
+  if (node_ID == root_ID)
+    return true;
+  auto it = tree.find (node_ID);
+  return it != tree.end () && it->second != -1;
+}
+
 py::array_t<int>
 Mmdta::generate_paths_to_cover_registered_links_driving ()
 {
@@ -2534,14 +2546,12 @@ Mmdta::generate_paths_to_cover_registered_links_driving ()
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multimodal *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (is_connected (_shortest_path_tree,
+                                    _origin->m_origin_node->m_node_ID,
+                                    _from_node_ID)
+                      && is_connected (_shortest_path_tree_reversed,
+                                       _dest->m_dest_node->m_node_ID,
+                                       _to_node_ID))
                     {
                       _flg = true;
                       break;
@@ -2738,8 +2748,8 @@ Mmdta::generate_paths_to_cover_registered_links_bus_walking ()
           _is_pnr = false;
 
           // generate new path including this link
-          auto &&sd
-            = m_mmdta->m_graph.get_endpoints (m_link_vec_bus[i]->m_link_ID);
+          auto &&sd = m_mmdta->m_bus_transit_graph.get_endpoints (
+            m_link_vec_bus[i]->m_link_ID);
           _from_node_ID = m_mmdta->m_bus_transit_graph.get_id (sd.first);
           _to_node_ID = m_mmdta->m_bus_transit_graph.get_id (sd.second);
 
@@ -2769,7 +2779,7 @@ Mmdta::generate_paths_to_cover_registered_links_bus_walking ()
               _shortest_path_tree_reversed.clear ();
             }
           if (m_mmdta->m_bus_transit_graph
-                .connections (_from_node_ID, Direction::Outgoing)
+                .connections (_to_node_ID, Direction::Outgoing)
                 .empty ())
             {
               _path_2 = new MNM_Path ();
@@ -2818,14 +2828,12 @@ Mmdta::generate_paths_to_cover_registered_links_bus_walking ()
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multimodal *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (is_connected (_shortest_path_tree,
+                                    _origin->m_origin_node->m_node_ID,
+                                    _from_node_ID)
+                      && is_connected (_shortest_path_tree_reversed,
+                                       _dest->m_dest_node->m_node_ID,
+                                       _to_node_ID))
                     {
                       _flg = true;
                       _is_bustransit = true;
@@ -2869,14 +2877,13 @@ Mmdta::generate_paths_to_cover_registered_links_bus_walking ()
                           for (auto *_parking_lot :
                                _dest->m_connected_pnr_parkinglot_vec)
                             {
-                              if (_shortest_path_tree
-                                      .find (_parking_lot->m_node_ID)
-                                      ->second
-                                    != -1
-                                  && _shortest_path_tree_reversed
-                                         .find (_dest->m_dest_node->m_node_ID)
-                                         ->second
-                                       != -1)
+                              if (is_connected (_shortest_path_tree,
+                                                _parking_lot->m_node_ID,
+                                                _from_node_ID)
+                                  && is_connected (_shortest_path_tree_reversed,
+                                                   _dest->m_dest_node
+                                                     ->m_node_ID,
+                                                   _to_node_ID))
                                 {
                                   _mid_dest_node_ID = _parking_lot->m_node_ID;
                                   _mid_parking_lot_ID = _parking_lot->m_ID;
@@ -3071,8 +3078,8 @@ Mmdta::generate_paths_to_cover_registered_links_bus_walking ()
           _is_pnr = false;
 
           // generate new path including this link
-          auto &&sd
-            = m_mmdta->m_graph.get_endpoints (m_link_vec_walking[i]->m_link_ID);
+          auto &&sd = m_mmdta->m_bus_transit_graph.get_endpoints (
+            m_link_vec_walking[i]->m_link_ID);
           _from_node_ID = m_mmdta->m_bus_transit_graph.get_id (sd.first);
           _to_node_ID = m_mmdta->m_bus_transit_graph.get_id (sd.second);
 
@@ -3102,7 +3109,7 @@ Mmdta::generate_paths_to_cover_registered_links_bus_walking ()
               _shortest_path_tree_reversed.clear ();
             }
           if (m_mmdta->m_bus_transit_graph
-                .connections (_from_node_ID, Direction::Outgoing)
+                .connections (_to_node_ID, Direction::Outgoing)
                 .empty ())
             {
               _path_2 = new MNM_Path ();
@@ -3151,14 +3158,12 @@ Mmdta::generate_paths_to_cover_registered_links_bus_walking ()
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multimodal *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (is_connected (_shortest_path_tree,
+                                    _origin->m_origin_node->m_node_ID,
+                                    _from_node_ID)
+                      && is_connected (_shortest_path_tree_reversed,
+                                       _dest->m_dest_node->m_node_ID,
+                                       _to_node_ID))
                     {
                       _flg = true;
                       _is_bustransit = true;
@@ -3202,14 +3207,13 @@ Mmdta::generate_paths_to_cover_registered_links_bus_walking ()
                           for (auto *_parking_lot :
                                _dest->m_connected_pnr_parkinglot_vec)
                             {
-                              if (_shortest_path_tree
-                                      .find (_parking_lot->m_node_ID)
-                                      ->second
-                                    != -1
-                                  && _shortest_path_tree_reversed
-                                         .find (_dest->m_dest_node->m_node_ID)
-                                         ->second
-                                       != -1)
+                              if (is_connected (_shortest_path_tree,
+                                                _parking_lot->m_node_ID,
+                                                _from_node_ID)
+                                  && is_connected (_shortest_path_tree_reversed,
+                                                   _dest->m_dest_node
+                                                     ->m_node_ID,
+                                                   _to_node_ID))
                                 {
                                   _mid_dest_node_ID = _parking_lot->m_node_ID;
                                   _mid_parking_lot_ID = _parking_lot->m_ID;
-- 
2.43.0


From 00dd4da72516c3f551ee842ccd1bb1432c37a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:28 +0000
Subject: [PATCH 43/61] fix: release the gridlock configuration when nothing is
 recorded

---
 src/dta.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dta.cpp b/src/dta.cpp
index ba4c5f8..f49268d 100644
--- a/src/dta.cpp
+++ b/src/dta.cpp
@@ -136,6 +136,10 @@ MNM_Dta::set_gridlock_recorder ()
       m_gridlock_recorder
         = new MNM_Gridlock_Link_Recorder (m_file_folder, _record_config);
     }
+  else
+    {
+      delete _record_config;
+    }
   return 0;
 }
 
-- 
2.43.0


From 4e3e89b7da8cd24064d19784db2156f5a8a5af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:28 +0000
Subject: [PATCH 44/61] fix: release the tables of time-dependent link
 attributes

---
 src/factory.cpp    | 2 ++
 src/multiclass.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/factory.cpp b/src/factory.cpp
index 52d6528..1ce73f0 100644
--- a/src/factory.cpp
+++ b/src/factory.cpp
@@ -142,8 +142,10 @@ MNM_Link_Factory::~MNM_Link_Factory ()
           delete _it_it.second;
         }
       _it.second->clear ();
+      delete _it.second;
     }
   m_td_link_attribute_table->clear ();
+  delete m_td_link_attribute_table;
   
   for (auto _map_it = m_link_map.begin (); _map_it != m_link_map.end ();
        _map_it++)
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index f8f15e5..7a5d367 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3462,8 +3462,10 @@ MNM_Link_Factory_Multiclass::~MNM_Link_Factory_Multiclass ()
           delete _it_it.second;
         }
       _it.second->clear ();
+      delete _it.second;
     }
   m_td_link_attribute_table->clear ();
+  delete m_td_link_attribute_table;
 }
 
 MNM_Dlink *
-- 
2.43.0


From b8851246092fab64d480acdca60d637ab0db2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 45/61] fix: release the emission counter that a subclass
 replaces

---
 src/multiclass.cpp | 2 ++
 src/multimodal.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 7a5d367..2a083ed 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4369,6 +4369,8 @@ MNM_Dta_Multiclass::initialize ()
     delete m_config;
   if (m_statistics != nullptr)
     delete m_statistics;
+  if (m_emission != nullptr)
+    delete m_emission;
   m_veh_factory = new MNM_Veh_Factory_Multiclass ();
   // printf("1\n");
   m_node_factory = new MNM_Node_Factory_Multiclass ();
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 4aef1c1..bf89f39 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -9541,6 +9541,8 @@ MNM_Dta_Multimodal::initialize ()
     delete m_od_factory;
   if (m_config != nullptr)
     delete m_config;
+  if (m_emission != nullptr)
+    delete m_emission;
 
   m_config = new MNM_ConfReader (m_file_folder + "/config.conf", "DTA");
   m_unit_time = m_config->get_int ("unit_time");
-- 
2.43.0


From 85fb1da7c1810b9541cbfe7fc6a71e273fcb4eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:24 +0000
Subject: [PATCH 46/61] fix: release the path table and cost tables of
 equilibrium runs

---
 macposts/_ext/dta.cpp | 14 ++++++++++++++
 src/due.cpp           | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index ed23605..c2f70cd 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -332,6 +332,13 @@ Dta::run_due (int max_iter, const std::string &folder, bool verbose,
   MNM_Due *_due = new MNM_Due_Msa (folder);
   _due->initialize (); // create and set m_buffer[i] = 0
   _due->init_path_flow ();
+  // this class's own tables take the place of these
+  for (auto _it : _due->m_link_tt_map)
+    delete[] _it.second;
+  _due->m_link_tt_map.clear ();
+  for (auto _it : _due->m_link_cost_map)
+    delete[] _it.second;
+  _due->m_link_cost_map.clear ();
 
   std::string _gap_file_name = folder + "/" + _rec_folder + "/gap_iteration";
   std::ofstream _gap_file;
@@ -434,6 +441,13 @@ Dta::run_dso (int max_iter, const std::string &folder, bool verbose,
   MNM_Dso *_dso = new MNM_Dso (folder);
   _dso->initialize (); // create and set m_buffer[i] = 0
   _dso->init_path_flow ();
+  // this class's own tables take the place of these
+  for (auto _it : _dso->m_link_tt_map)
+    delete[] _it.second;
+  _dso->m_link_tt_map.clear ();
+  for (auto _it : _dso->m_link_cost_map)
+    delete[] _it.second;
+  _dso->m_link_cost_map.clear ();
 
   std::string _gap_file_name = folder + "/" + _rec_folder + "/gap_iteration";
   std::ofstream _gap_file;
diff --git a/src/due.cpp b/src/due.cpp
index 560d3ee..c614cb9 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -406,6 +406,18 @@ MNM_Due_Msa::~MNM_Due_Msa ()
       delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
+  if (m_path_table != nullptr)
+    {
+      for (auto _it : *m_path_table)
+        {
+          for (auto _it_it : *(_it.second))
+            {
+              delete _it_it.second;
+            }
+          delete _it.second;
+        }
+      delete m_path_table;
+    }
   delete m_base_dta;
 }
 
@@ -949,6 +961,8 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
               if (!_flg)
                 {
                   _tau = 0.;
+                  if (_exist)
+                    delete _path;
                   continue;
                 }
               // printf("tau: %lf\n", _tau());
-- 
2.43.0


From b7785a6f269d958fe23146f8fa4b874d6269ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:47 +0000
Subject: [PATCH 47/61] fix: release park-and-ride paths with the passenger
 paths

---
 src/multimodal.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index bf89f39..f92ea0a 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -12225,6 +12225,10 @@ MNM_Passenger_Path_PnR::~MNM_Passenger_Path_PnR ()
     delete m_driving_part;
   if (m_bus_part != nullptr)
     delete m_bus_part;
+  // the two parts have released what the path consists of
+  m_path->m_driving_path = nullptr;
+  m_path->m_transit_path = nullptr;
+  delete m_path;
 }
 
 TFlt
-- 
2.43.0


From 1858b2daa21bd5449c8b39222277b4023fb9b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:47 +0000
Subject: [PATCH 48/61] fix: release the buffer of bus transit demand

---
 src/multimodal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index f92ea0a..739a299 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -8970,6 +8970,7 @@ MNM_IO_Multimodal::build_bustransit_demand (const std::string &file_folder,
                 "Something wrong in build_bustransit_demand");
             }
         }
+      delete[] _demand_vector;
       _demand_file.close ();
     }
   else
-- 
2.43.0


From 06bbad85ddf4d1b791ae80d5321cfcb6d6c5faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:55 +0000
Subject: [PATCH 49/61] fix: release the path when path times are asked for too
 late

---
 macposts/_ext/dta.cpp   | 5 +++--
 macposts/_ext/mcdta.cpp | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index c2f70cd..70f3e87 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1,5 +1,6 @@
 // Single class DTA
 
+#include <memory>
 #include <pybind11/eigen.h>
 #include <pybind11/numpy.h>
 #include <pybind11/pybind11.h>
@@ -1931,7 +1932,8 @@ Dta::get_path_tt (Input_Array<int> link_IDs, Input_Array<int> start_intervals)
   int *start_ptr = (int *) start_buf.ptr;
   int *links_ptr = (int *) links_buf.ptr;
   MNM_Dlink *_link;
-  MNM_Path *_path = new MNM_Path ();
+  std::unique_ptr<MNM_Path> _path_holder (new MNM_Path ());
+  MNM_Path *_path = _path_holder.get ();
   for (int i = 0; i < links_buf.shape[0]; i++)
     {
       _link = m_dta->m_link_factory->get_link (TInt (links_ptr[i]));
@@ -1970,7 +1972,6 @@ Dta::get_path_tt (Input_Array<int> link_IDs, Input_Array<int> start_intervals)
                                                   m_link_cost_map,
                                                   get_cur_loading_interval ());
     }
-  delete _path;
   return result;
 }
 
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 26b952d..b82a205 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -1,6 +1,7 @@
 // Bi-class DTA
 
 #include <cfloat>
+#include <memory>
 #include <pybind11/eigen.h>
 #include <pybind11/numpy.h>
 #include <pybind11/pybind11.h>
@@ -1644,7 +1645,8 @@ Mcdta::get_path_tt_car (Input_Array<int> link_IDs,
   int *start_ptr = (int *) start_buf.ptr;
   int *links_ptr = (int *) links_buf.ptr;
   MNM_Dlink *_link;
-  MNM_Path *_path = new MNM_Path ();
+  std::unique_ptr<MNM_Path> _path_holder (new MNM_Path ());
+  MNM_Path *_path = _path_holder.get ();
   for (int i = 0; i < links_buf.shape[0]; i++)
     {
       _link = m_mcdta->m_link_factory->get_link (TInt (links_ptr[i]));
@@ -1689,7 +1691,6 @@ Mcdta::get_path_tt_car (Input_Array<int> link_IDs,
                                                   m_link_cost_map,
                                                   get_cur_loading_interval ());
     }
-  delete _path;
   return result;
 }
 
@@ -1714,7 +1715,8 @@ Mcdta::get_path_tt_truck (Input_Array<int> link_IDs,
   int *start_ptr = (int *) start_buf.ptr;
   int *links_ptr = (int *) links_buf.ptr;
   MNM_Dlink *_link;
-  MNM_Path *_path = new MNM_Path ();
+  std::unique_ptr<MNM_Path> _path_holder (new MNM_Path ());
+  MNM_Path *_path = _path_holder.get ();
   for (int i = 0; i < links_buf.shape[0]; i++)
     {
       _link = m_mcdta->m_link_factory->get_link (TInt (links_ptr[i]));
@@ -1759,7 +1761,6 @@ Mcdta::get_path_tt_truck (Input_Array<int> link_IDs,
                                                   m_link_cost_map_truck,
                                                   get_cur_loading_interval ());
     }
-  delete _path;
   return result;
 }
 
-- 
2.43.0


From e2646b060ce65767b0ecb9133a52dd9967215c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:50 +0000
Subject: [PATCH 50/61] fix: release the path behind the lowest cost path

---
 macposts/_ext/mmdta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 55a2e66..6991285 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -4637,6 +4637,7 @@ Mmdta::get_lowest_cost_path (int start_interval, int o_node_ID, int d_node_ID)
                                                   m_tdsp_tree_map_driving,
                                                   m_tdsp_tree_map_bus, m_mmdta);
   _p_path = std::get<0> (_path_result.first);
+  std::unique_ptr<MNM_Passenger_Path_Base> _p_path_holder (_p_path);
   _cost = std::get<2> (_path_result.first);
   _mode = _path_result.second;
   _best_time_col = std::get<1> (_path_result.first);
-- 
2.43.0


From f7b72381e327aecc854ad0e0a27e76dbd43aa88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:54 +0000
Subject: [PATCH 51/61] fix: release the lowest cost path of a multiclass query

---
 macposts/_ext/mcdta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index b82a205..f4897dd 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -1397,6 +1397,7 @@ Mcdta::get_lowest_cost_path (int start_interval, int o_node_ID, int d_node_ID)
     }
   IAssert (_cur_best_time >= 0 && _cur_best_assign_col >= 0);
   Assert (_cur_best_path != nullptr);
+  std::unique_ptr<MNM_Path> _best_path_holder (_cur_best_path);
 
   _exist = _path_set->is_in (_cur_best_path);
   _num_col = (int) _cur_best_path->m_node_vec.size ();
-- 
2.43.0


From b1277434a23f8aa221927aa3ff37c7068fca9c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:54 +0000
Subject: [PATCH 52/61] fix: set the type of link transmission model links

---
 src/dlink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 400f933..74f5d2b 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1322,6 +1322,7 @@ MNM_Dlink_Ltm::MNM_Dlink_Ltm (TInt ID, TFlt lane_hold_cap, TFlt lane_flow_cap,
                               TFlt unit_time, TFlt flow_scalar)
     : MNM_Dlink::MNM_Dlink (ID, number_of_lane, length, ffs)
 {
+  m_link_type = MNM_TYPE_LTM;
   m_lane_hold_cap = lane_hold_cap;
   if (m_lane_flow_cap * TFlt (number_of_lane) * unit_time * flow_scalar < 1.)
     {
-- 
2.43.0


From f939c6b95d908c5086fc8e39d499f0312710ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:54 +0000
Subject: [PATCH 53/61] fix: release the path that cannot be extracted

---
 src/path.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/path.cpp b/src/path.cpp
index 68b0c24..bed3d5e 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -369,6 +369,7 @@ extract_path (TInt origin_node_ID, TInt dest_node_ID,
       if (output_map.find (_current_node_ID) == output_map.end ())
         {
           // printf("Cannot extract path\n");
+          delete _path;
           return nullptr;
         }
       _current_link_ID = output_map[_current_node_ID];
@@ -377,6 +378,7 @@ extract_path (TInt origin_node_ID, TInt dest_node_ID,
           printf ("Cannot extract path from origin node %d to destination node "
                   "%d\n",
                   origin_node_ID, dest_node_ID);
+          delete _path;
           return nullptr;
         }
       _path->m_node_vec.push_back (_current_node_ID);
-- 
2.43.0


From f3b3bd25e94609559d0bd1f36ff3718e89d1224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:24 +0000
Subject: [PATCH 54/61] fix: write the link records of multimodal loadings

The statistics of a multimodal loading override the functions that write
the files. Called from the base class they wrote the transit times, twice
per interval and too early, and the volumes and travel times of driving
links were never written.
---
 src/multiclass.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 2a083ed..c2094e2 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -6790,11 +6790,13 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
         }
     }
 
-  record_loading_interval_condition (timestamp);
+  // derived classes write their own records in addition
+  MNM_Statistics_Lrn_Multiclass::record_loading_interval_condition (timestamp);
 
   if ((timestamp) % m_n == 0 || timestamp == 0)
     {
-      record_record_interval_condition (timestamp);
+      MNM_Statistics_Lrn_Multiclass::record_record_interval_condition (
+        timestamp);
     }
   return 0;
 }
-- 
2.43.0


From a8c93fd391c3cba1b5f86424222b55b62bb8a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:14 +0000
Subject: [PATCH 55/61] fix: keep the path table that is set again

---
 src/routing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/routing.cpp b/src/routing.cpp
index 2fb39bd..9eff4cb 100644
--- a/src/routing.cpp
+++ b/src/routing.cpp
@@ -631,7 +631,8 @@ MNM_Routing_Fixed::remove_finished (MNM_Veh *veh, bool del)
 int
 MNM_Routing_Fixed::set_path_table (Path_Table *path_table)
 {
-  if (m_path_table != nullptr)
+  // the table in use may be set again
+  if (m_path_table != nullptr && m_path_table != path_table)
     delete m_path_table;
   m_path_table = path_table;
   return 0;
-- 
2.43.0


From 1e8121485f6a628399a51db758979507f9eea4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:02 +0000
Subject: [PATCH 56/61] fix: record the links' curves in multimodal equilibrium
 runs

---
 src/multimodal.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 739a299..dc38a77 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -21555,9 +21555,12 @@ MNM_MM_Due::run_mmdta (bool verbose)
   _routing->m_routing_fixed_car->init_routing (m_driving_path_table);
   _routing->m_routing_fixed_truck->init_routing (m_driving_path_table);
 
-  //    for (auto _link_it : mmdta->m_link_factory->m_link_map) {
-  //        _link_it.second->install_cumulative_curve();
-  //    }
+  // the travel times of the links come from the cumulative curves
+  for (auto _link_it : mmdta->m_link_factory->m_link_map)
+    {
+      dynamic_cast<MNM_Dlink_Multiclass *> (_link_it.second)
+        ->install_cumulative_curve_multiclass ();
+    }
 
   mmdta->pre_loading ();
   mmdta->loading (verbose);
-- 
2.43.0


From ca1dd07fc95f448cc984edcbe302097d4a3d453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:44 +0000
Subject: [PATCH 57/61] fix: use the park-and-ride demand for park-and-ride
 paths

---
 src/multimodal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index dc38a77..d9e6b1a 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -19435,7 +19435,7 @@ MNM_MM_Due::get_best_existing_pnr_path (TInt o_node_ID, TInt d_node_ID,
       if (_assign_inter >= m_total_assign_inter)
         _assign_inter = m_total_assign_inter - 1;
       _tot_dmd_one_mode
-        = compute_total_passenger_demand_for_one_mode (transit, o_node_ID,
+        = compute_total_passenger_demand_for_one_mode (pnr, o_node_ID,
                                                        d_node_ID,
                                                        _assign_inter);
       for (auto _p_path : _pathset->m_path_vec)
@@ -20234,7 +20234,7 @@ MNM_MM_Due::get_best_existing_pnr_path_for_single_interval (
       if (_assign_inter >= m_total_assign_inter)
         _assign_inter = m_total_assign_inter - 1;
       _tot_dmd_one_mode
-        = compute_total_passenger_demand_for_one_mode (transit, o_node_ID,
+        = compute_total_passenger_demand_for_one_mode (pnr, o_node_ID,
                                                        d_node_ID,
                                                        _assign_inter);
       for (auto _p_path : _pathset->m_path_vec)
-- 
2.43.0


From 4ee416cf840fda5049a16993315c35da98410536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:29 +0000
Subject: [PATCH 58/61] fix: move no flow between paths of equal disutility

---
 src/multimodal.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index d9e6b1a..09b337e 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -21434,6 +21434,11 @@ MNM_MM_Due::update_path_table_gp_fixed_departure_time_choice (
                                 {
                                   _tau = m_step_size * _tmp_path->m_buffer[_col]
                                          / _tmp_change;
+                                }
+                              // a difference within rounding is none
+                              if (_tmp_change
+                                  > 1e-9 * std::max (1., std::abs (_tmp_cost)))
+                                {
                                   _flg = true;
                                 }
                               //                                if ((_tmp_change
-- 
2.43.0


From bb0a880d79a8440e3961ed2ed325ed1d4229b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:23 +0000
Subject: [PATCH 59/61] fix: release the tried path when no flow moves

---
 src/multimodal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 09b337e..0b416d6 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -21467,6 +21467,8 @@ MNM_MM_Due::update_path_table_gp_fixed_departure_time_choice (
               if (!_flg)
                 {
                   _tau = 0.;
+                  if (_exist)
+                    delete _path;
                   continue;
                 }
               // flow adjustment
-- 
2.43.0


From 8c40c5ae6e7f79d9a6f6865d0154761df5117236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:33 +0000
Subject: [PATCH 60/61] fix: let a delivery tour pass its last destination
 before its end

---
 src/delivery_traffic.cpp | 14 ++++++++------
 src/delivery_traffic.h   |  1 +
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/delivery_traffic.cpp b/src/delivery_traffic.cpp
index 888993e..e5c4a5f 100644
--- a/src/delivery_traffic.cpp
+++ b/src/delivery_traffic.cpp
@@ -36,6 +36,12 @@ MNM_Veh_Delivery::get_current_od ()
     }
 }
 
+bool
+MNM_Veh_Delivery::is_on_last_od () const
+{
+  return m_current_OD_index >= (std::ptrdiff_t) m_multi_od_seq->size () - 1;
+}
+
 int
 MNM_Veh_Delivery::move_to_next_od ()
 {
@@ -336,12 +342,10 @@ MNM_Destination_Delivery::receive (TInt current_interval)
       if (auto _veh_deliver = dynamic_cast<MNM_Veh_Delivery *> (_veh))
         {
           if (_veh_deliver->m_multi_od_seq != nullptr
-              && _veh_deliver->m_multi_od_seq->back ().second
-                   != _veh_deliver->get_current_od ().second)
+              && !_veh_deliver->is_on_last_od ())
             {
               Assert (_veh_deliver->get_current_od ().second == this);
               _veh_deliver->move_to_next_od ();
-              Assert (_veh_deliver->get_current_od ().second != this);
               // delay some time
               _veh_deliver->m_waiting_time
                 = dynamic_cast<MNM_Origin_Delivery *> (_veh_deliver->m_origin)
@@ -391,12 +395,10 @@ MNM_Destination_Delivery::receive (TInt current_interval, MNM_Routing *routing,
       if (auto _veh_deliver = dynamic_cast<MNM_Veh_Delivery *> (_veh))
         {
           if (_veh_deliver->m_multi_od_seq != nullptr
-              && _veh_deliver->m_multi_od_seq->back ().second
-                   != _veh_deliver->get_current_od ().second)
+              && !_veh_deliver->is_on_last_od ())
             {
               Assert (_veh_deliver->get_current_od ().second == this);
               _veh_deliver->move_to_next_od ();
-              Assert (_veh_deliver->get_current_od ().second != this);
               // delay some time
               _veh_deliver->m_waiting_time
                 = dynamic_cast<MNM_Origin_Delivery *> (_veh_deliver->m_origin)
diff --git a/src/delivery_traffic.h b/src/delivery_traffic.h
index 0c076a1..2de40ad 100644
--- a/src/delivery_traffic.h
+++ b/src/delivery_traffic.h
@@ -11,6 +11,7 @@ public:
   int set_multi_od_seq (
     std::vector<std::pair<MNM_Origin *, MNM_Destination *>> *multi_od_seq);
   std::pair<MNM_Origin *, MNM_Destination *> get_current_od ();
+  bool is_on_last_od () const;
   int move_to_next_od ();
 
   std::vector<std::pair<MNM_Origin *, MNM_Destination *>> *m_multi_od_seq;
-- 
2.43.0


From ba474f176cf93a44f0ccbed1f95b3433962f029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:49 +0000
Subject: [PATCH 61/61] fix: draw the routing type of an electric tour once per
 leg

---
 src/ev_traffic.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 819ebd7..16620e6 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -208,6 +208,12 @@ MNM_Origin_EV::adjust_multi_OD_seq_veh_routing_type (TFlt adaptive_ratio)
       if (auto _veh_elec = dynamic_cast<MNM_Veh_Electrified_Delivery *> (_it))
         {
           Assert (_veh_elec->m_multi_od_seq != nullptr);
+          // already on its way, changing the routing type now would mix the
+          // next link of one type with the remaining links of the other
+          if (_veh_elec->m_path != nullptr)
+            {
+              continue;
+            }
           // std::cout << "EV with multi OD pairs needs charging after first
           // trip: " << _veh_elec -> need_charging() << std::endl;
           if (_veh_elec->need_charging ())
-- 
2.43.0

