From 7e42370e130e55cf3ff4dd743dfa1af4397f959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:52 +0000
Subject: [PATCH 01/37] fix: graph neighbors() must visit every distinct
 neighbor

step() marked the endpoint of the next link as seen before testing it, so
iteration stopped after the first neighbor.
---
 src/graph.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graph.h b/src/graph.h
index eb71e2f..8bbfac2 100644
--- a/src/graph.h
+++ b/src/graph.h
@@ -250,6 +250,11 @@ public:
         // Invariant: before stepping to the next neighbor, the current one
         // should have never been seen.
         assert (!(cur && seen.count (cur->endpoints[direction])));
+        if (cur)
+          {
+            seen.insert (cur->endpoints[direction]);
+            cur = cur->next[direction];
+          }
         while (cur || refill)
           {
             if (!cur)
@@ -260,10 +265,6 @@ public:
                   = invert (this->direction);
                 direction = static_cast<int> (this->direction);
               }
-            else
-              {
-                seen.insert (cur->endpoints[direction]);
-              }
 
             if (!seen.count (cur->endpoints[direction]))
               break;
-- 
2.43.0


From a226384fc70116b18d5a7975396036ae18ccd7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:31 +0000
Subject: [PATCH 02/37] fix: all_to_one_LIFO must relax only the links entering
 the popped node

It relaxed every link of the graph with the popped node's distance, giving
trees that do not lead to the destination.
---
 src/shortest_path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 80979b2..dbe739f 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -494,8 +494,9 @@ MNM_Shortest_Path::all_to_one_LIFO (
       _tmp_ID = m_Q.front ();
       m_Q.pop_front ();
       m_Q_support.find (_tmp_ID)->second = false;
+      const auto &node = graph.get_node (_tmp_ID);
       _tmp_dist = _dist.find (_tmp_ID)->second;
-      for (const auto &link : graph.links ())
+      for (const auto &link : graph.connections (node, Direction::Incoming))
         {
           _in_node_ID = graph.get_id (graph.get_endpoints (link).first);
           _in_link_ID = graph.get_id (link);
-- 
2.43.0


From 703b2a58977351a300b2470c3d2df5574b94cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:31 +0000
Subject: [PATCH 03/37] fix: all_to_one_Dijkstra must reset stale entries of
 the output map

An entry left from an earlier call survived for a node that cannot reach the
destination, instead of -1.
---
 src/shortest_path.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index dbe739f..776487f 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -41,9 +41,8 @@ MNM_Shortest_Path::all_to_one_Dijkstra (
         {
           dist_to_dest.insert (
             { _node_id, TFlt (std::numeric_limits<double>::infinity ()) });
-          output_map.insert (
-            { _node_id, -1 }); // If the destination is not accessible the
-                               // output remains -1
+          output_map[_node_id]
+            = -1; // If the destination is not accessible the output remains -1
         }
     }
   dist_to_dest[dest_node_ID] = TFlt (0);
-- 
2.43.0


From 239daad9b48936ca143e74c4aacb0043c779898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:04 +0000
Subject: [PATCH 04/37] fix: MNM_TDSP_Tree must release its arrays with
 delete[]

---
 src/shortest_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 776487f..7181db5 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -574,9 +574,9 @@ MNM_TDSP_Tree::~MNM_TDSP_Tree ()
     {
       _node_ID = m_graph.get_id (n);
       if (m_dist[_node_ID] != nullptr)
-        delete m_dist[_node_ID];
+        delete[] m_dist[_node_ID];
       if (m_tree[_node_ID] != nullptr)
-        delete m_tree[_node_ID];
+        delete[] m_tree[_node_ID];
     }
   m_dist.clear ();
   m_tree.clear ();
-- 
2.43.0


From e36dc8eebceee135ae980a2a5e7cf4afeafc8e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:21 +0000
Subject: [PATCH 05/37] fix: get_time must not read past the last record when
 rounding up

---
 src/dlink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index eda34d9..825523b 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1234,7 +1234,7 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
   IAssert (j >= 1);
   if (rounding_up)
     {
-      return m_recorder[j].first;
+      return _lower_j != m_recorder.end () ? m_recorder[j].first : TFlt (-1);
     }
   if (_lower_j != m_recorder.end ())
     {
-- 
2.43.0


From 1e7b7d17af5633a842663d3033e31600cfd299e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:22 +0000
Subject: [PATCH 06/37] fix: shrinking a cumulative curve must drop the oldest
 records

---
 src/dlink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 825523b..48d1c8c 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1010,7 +1010,7 @@ MNM_Cumulative_Curve::shrink (TInt number)
       arrange ();
       while (TInt (m_recorder.size ()) > number)
         {
-          m_recorder.pop_back ();
+          m_recorder.pop_front (); // drop the oldest
         }
     }
   return 0;
-- 
2.43.0


From 72ea2e02c9462d9a8657e198fe0b6bb4f3458888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:13 +0000
Subject: [PATCH 07/37] fix: CTM link flow must count each finished vehicle
 once

---
 src/dlink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 48d1c8c..6a085da 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -397,7 +397,8 @@ MNM_Dlink_Ctm::get_link_flow ()
   TInt _total_volume = 0;
   for (int i = 0; i < m_num_cells; ++i)
     {
-      _total_volume += m_cell_array[i]->m_volume;
+      // m_volume of the last cell may include m_finished_array
+      _total_volume += m_cell_array[i]->m_veh_queue.size ();
     }
   _total_volume += m_finished_array.size ();
   return TFlt (_total_volume) / m_flow_scalar;
-- 
2.43.0


From a080cd456a7cd6255aa48b9e16e93fe8d8ddeaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 08/37] fix: link queue supply must not become negative above
 jam density

---
 src/dlink.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 6a085da..6b16ed8 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -729,9 +729,10 @@ TFlt
 MNM_Dlink_Lq::get_link_supply ()
 {
   TFlt _cur_density = get_link_flow () / m_length;
-  return _cur_density > m_k_c
-           ? TFlt (get_flow_from_density (_cur_density) * m_unit_time)
-           : TFlt (m_C * m_unit_time);
+  TFlt _supply = _cur_density > m_k_c
+                   ? TFlt (get_flow_from_density (_cur_density) * m_unit_time)
+                   : TFlt (m_C * m_unit_time);
+  return std::max (_supply, TFlt (0));
 }
 
 int
-- 
2.43.0


From b07aba09e1623d5667ad2e57ae35879c92831987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 09/37] fix: link queue free-flow loading time must be in
 loading intervals

---
 src/dlink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 6b16ed8..84aba54 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -939,7 +939,7 @@ MNM_Dlink_Lq::get_link_freeflow_tt_loading ()
 {
   // throw std::runtime_error("Error, MNM_Dlink_Lq::get_link_freeflow_tt_loading
   // NOT implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs);
+  return MNM_Ults::round_up_time (m_length / (m_ffs * m_unit_time));
 }
 
 /**************************************************************************
-- 
2.43.0


From 3b0195b75d616187c98b6372a2d3f988a39923f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 10/37] fix: LTM link must not read its capacity before it is
 set

---
 src/dlink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 84aba54..c55ba4e 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1317,12 +1317,13 @@ MNM_Dlink_Ltm::MNM_Dlink_Ltm (TInt ID, TFlt lane_hold_cap, TFlt lane_flow_cap,
                               TFlt unit_time, TFlt flow_scalar)
     : MNM_Dlink::MNM_Dlink (ID, number_of_lane, length, ffs)
 {
+  m_link_type = MNM_TYPE_LTM;
   m_lane_hold_cap = lane_hold_cap;
+  m_lane_flow_cap = lane_flow_cap;
   if (m_lane_flow_cap * TFlt (number_of_lane) * unit_time * flow_scalar < 1.)
     {
       m_lane_flow_cap = 1. / (TFlt (number_of_lane) * unit_time * flow_scalar);
     }
-  m_lane_flow_cap = lane_flow_cap;
   m_flow_scalar = flow_scalar;
   m_hold_cap = m_lane_hold_cap * TFlt (number_of_lane) * m_length;
   m_veh_queue = std::deque<MNM_Veh *> ();
-- 
2.43.0


From fc6807dcb5d34ba20b138aabd9daf39d968e194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 11/37] fix: LTM link supply must look up arrivals at the
 current time

---
 src/dlink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index c55ba4e..b1bf7b4 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1481,7 +1481,7 @@ MNM_Dlink_Ltm::get_link_supply ()
   TFlt _recv
     = m_N_out2.get_result (
         TFlt (m_current_timestamp * m_unit_time + m_unit_time) - m_length / m_w)
-      + m_hold_cap - m_N_in2.get_result (TFlt (m_current_timestamp));
+      + m_hold_cap - m_N_in2.get_result (TFlt (m_current_timestamp * m_unit_time));
   TFlt _res
     = std::min (_recv, m_lane_flow_cap * TFlt (m_number_of_lane) * m_unit_time);
   return std::max (_res, TFlt (0));
-- 
2.43.0


From bce4df1bae297c5d0994edc5061bd2181a401f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 12/37] fix: LTM link must not send its first arrivals before
 the free-flow time

---
 src/dlink.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index b1bf7b4..7914b63 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1332,6 +1332,8 @@ MNM_Dlink_Ltm::MNM_Dlink_Ltm (TInt ID, TFlt lane_hold_cap, TFlt lane_flow_cap,
   m_unit_time = unit_time;
   m_w = m_lane_flow_cap / (m_lane_hold_cap - m_lane_flow_cap / m_ffs);
   m_N_in2 = MNM_Cumulative_Curve ();
+  // nobody has entered before the first interval
+  m_N_in2.add_record (std::pair<TFlt, TFlt> (-m_unit_time, TFlt (0)));
   m_N_out2 = MNM_Cumulative_Curve ();
   m_previous_finished_flow = TFlt (0);
   m_record_size
-- 
2.43.0


From 91e852f144fca972949233d3285f6f83c59da2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:10 +0000
Subject: [PATCH 13/37] fix: a destination's own adaptive ratio must not leak
 to the next destination

---
 src/multiclass.cpp | 36 ++++++++++++++++++++----------------
 src/multimodal.cpp | 36 ++++++++++++++++++++----------------
 src/od.cpp         |  9 +++++----
 3 files changed, 45 insertions(+), 36 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 70c4f0d..b238e65 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3081,19 +3081,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3102,7 +3103,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3130,19 +3131,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3151,7 +3153,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3196,19 +3198,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio_car = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_adaptive_ratio_car == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_adaptive_ratio_car == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3217,7 +3220,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _adaptive_ratio_car)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3245,19 +3248,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio_truck = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_adaptive_ratio_truck == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_adaptive_ratio_truck == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3266,7 +3270,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _adaptive_ratio_truck)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 430bb80..78d271e 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2675,8 +2675,9 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2685,13 +2686,13 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0),
                                                      TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2700,7 +2701,7 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2727,8 +2728,9 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2737,13 +2739,13 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1),
                                                      TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2752,7 +2754,7 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2882,8 +2884,9 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio_car = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2892,13 +2895,13 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_adaptive_ratio_car == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0),
                                                      TInt (1));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_adaptive_ratio_car == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2907,7 +2910,7 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _adaptive_ratio_car)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2934,8 +2937,9 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio_truck = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2944,13 +2948,13 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_adaptive_ratio_truck == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1),
                                                      TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_adaptive_ratio_truck == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2959,7 +2963,7 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _adaptive_ratio_truck)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/od.cpp b/src/od.cpp
index 9490b0e..c1d03f7 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -137,18 +137,19 @@ MNM_Origin::release_one_interval (TInt current_interval,
        _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio;
       if (m_adaptive_ratio.find(_demand_it->first) != m_adaptive_ratio.end()) {
-        adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = veh_factory->make_veh (current_interval, MNM_TYPE_STATIC);
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = veh_factory->make_veh (current_interval, MNM_TYPE_ADAPTIVE);
@@ -156,7 +157,7 @@ MNM_Origin::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = veh_factory->make_veh (current_interval,
                                                 MNM_TYPE_ADAPTIVE);
-- 
2.43.0


From 45c364a28a3f056d9679bf542a755fe4ca5b15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:10 +0000
Subject: [PATCH 14/37] fix: general road junction must split flow by turning
 shares

---
 src/dnode.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/dnode.cpp b/src/dnode.cpp
index 7e6a0e0..d3ad18d 100644
--- a/src/dnode.cpp
+++ b/src/dnode.cpp
@@ -591,7 +591,7 @@ MNM_Dnode_GRJ::compute_flow ()
       for (size_t j = 0; j < m_out_link_array.size (); ++j)
         {
           m_veh_flow[i * _offset + j]
-            = _f_a * MNM_Ults::divide (m_demand[i * _offset + j], m_supply[j]);
+            = _f_a * MNM_Ults::divide (m_demand[i * _offset + j], m_d_a[i]);
           // printf("to link %d the flow is %.4f\n", m_out_link_array[j] ->
           // m_link_ID, m_veh_flow[i * _offset + j]);
         }
@@ -692,25 +692,30 @@ MNM_Dnode_GRJ::get_theta ()
                 {
                   _down += m_C_a[i]
                            * MNM_Ults::divide (m_demand[i * _offset + j],
-                                               m_supply[j]);
+                                               m_d_a[i]);
                 }
               else
                 {
                   _up += m_d_a[i]
                          * MNM_Ults::divide (m_demand[i * _offset + j],
-                                             m_supply[j]);
+                                             m_d_a[i]);
                 }
             }
           // printf("for j is %d, the value of cal is %lf, s is %lf, up is %lf,
           // down is %lf\n", j, (m_supply[j] - _up)/_down ,m_supply[j](), _up(),
           // _down());
-          _temp3.push_back ((m_supply[j] - _up) / _down);
+          // in links without vehicles to j do not constrain it
+          if (_down > TFlt (0))
+            _temp3.push_back ((m_supply[j] - _up) / _down);
         }
-      _temp2.push_back (*max_element (_temp3.begin (), _temp3.end ()));
+      if (!_temp3.empty ())
+        _temp2.push_back (*max_element (_temp3.begin (), _temp3.end ()));
     }
   // printf("s3\n");
   // printf("_temp2 size %d\n", _temp2.size());
-  TFlt _e2 = *max_element (_temp2.begin (), _temp2.end ());
+  TFlt _e2 = _temp2.empty ()
+               ? _e1
+               : *min_element (_temp2.begin (), _temp2.end ());
 
   // printf("e1 is %lf, e2 is %lf\n", _e1(), _e2());
   // total
-- 
2.43.0


From 8d45623d0b51d363df73489c8635c3c03653d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:19 +0000
Subject: [PATCH 15/37] fix: readers must report a file that ends early instead
 of looping forever

---
 src/io.cpp         | 33 ++++++++++++++++++++++-----------
 src/multiclass.cpp |  9 ++++++---
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index f716ab7..c9ac2a1 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -28,7 +28,8 @@ MNM_IO::build_node_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_node;)
         {
-          std::getline (_node_file, _line);
+          if (!std::getline (_node_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -109,7 +110,8 @@ MNM_IO::build_link_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_link;)
         {
-          std::getline (_link_file, _line);
+          if (!std::getline (_link_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -209,7 +211,8 @@ MNM_IO::build_od_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -235,7 +238,8 @@ MNM_IO::build_od_factory (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -313,7 +317,8 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -366,7 +371,8 @@ MNM_IO::build_od_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -386,7 +392,8 @@ MNM_IO::build_od_factory (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -554,7 +561,8 @@ MNM_IO::build_graph (const std::string &file_folder,
   std::vector<std::string> _words;
   for (int i = 0; i < _num_of_link;)
     {
-      std::getline (_graph_file, _line);
+      if (!std::getline (_graph_file, _line))
+        throw std::runtime_error ("unexpected end of file");
       _line = MNM_IO::trim (_line);
       if (_line.empty () || _line[0] == '#')
         {
@@ -619,7 +627,8 @@ MNM_IO::build_demand (const std::string &file_folder,
       double *_demand_vector = new double[_max_interval]();
       for (int i = 0; i < _num_OD;)
         {
-          std::getline (_demand_file, _line);
+          if (!std::getline (_demand_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           // std::cout << "Processing: " << _line << "\n";
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
@@ -858,7 +867,8 @@ MNM_IO::load_path_table (const std::string &file_name,
     {
       for (int i = 0; i < Num_Path;)
         {
-          std::getline (_path_table_file, _line);
+          if (!std::getline (_path_table_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -979,7 +989,8 @@ MNM_IO::build_vms_facotory (const std::string &file_folder,
       // printf("Start build demand profile.\n");
       for (int i = 0; i < num_vms;)
         {
-          std::getline (_vms_file, _line);
+          if (!std::getline (_vms_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index b238e65..797cb38 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3607,7 +3607,8 @@ MNM_IO_Multiclass::build_node_factory_multiclass (
     {
       for (int i = 0; i < _num_of_node;)
         {
-          std::getline (_node_file, _line);
+          if (!std::getline (_node_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -3694,7 +3695,8 @@ MNM_IO_Multiclass::build_link_factory_multiclass (
     {
       for (int i = 0; i < _num_of_link;)
         {
-          std::getline (_link_file, _line);
+          if (!std::getline (_link_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -3829,7 +3831,8 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
 
       for (int i = 0; i < _num_OD;)
         {
-          std::getline (_demand_file, _line);
+          if (!std::getline (_demand_file, _line))
+            throw std::runtime_error ("unexpected end of file");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             continue;
-- 
2.43.0


From 4084fe49b29ff60e0bd863ef1c0a47cf7b2b6e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:52 +0000
Subject: [PATCH 16/37] fix: path buffer comments must be skipped by looking at
 the buffer line

---
 src/io.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index c9ac2a1..5c6fcc2 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -879,9 +879,14 @@ MNM_IO::load_path_table (const std::string &file_name,
             {
               while (1)
                 {
-                  std::getline (_buffer_file, _buffer_line);
+                  if (!std::getline (_buffer_file, _buffer_line))
+                    {
+                      if (_buffer_file.is_open ())
+                        throw std::runtime_error ("unexpected end of file");
+                      break; // no buffer file
+                    }
                   _buffer_line = trim (_buffer_line);
-                  if (!_line.empty () && _line[0] != '#')
+                  if (!_buffer_line.empty () && _buffer_line[0] != '#')
                     {
                       break;
                     }
-- 
2.43.0


From 3a36d8f4839460e4301725cafa7abddcff358ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:52 +0000
Subject: [PATCH 17/37] fix: a path over nodes without a connecting link must
 be rejected

---
 src/io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 5c6fcc2..6143bfe 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -927,6 +927,7 @@ MNM_IO::load_path_table (const std::string &file_name,
                 {
                   _from_ID = _path->m_node_vec[j];
                   _to_ID = _path->m_node_vec[j + 1];
+                  _link_ID = -1;
                   for (auto &&c : graph.connections (graph.get_node (_from_ID),
                                                      Direction::Outgoing))
                     {
@@ -937,6 +938,9 @@ MNM_IO::load_path_table (const std::string &file_name,
                           break;
                         }
                     };
+                  if (_link_ID == -1)
+                    throw std::runtime_error (
+                      "failed to parse line, no link between nodes: " + _line);
                   _path->m_link_vec.push_back (_link_ID);
                 }
 
-- 
2.43.0


From 9612c3ef677e4c2af5ab45c366520a6cd74bead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:52 +0000
Subject: [PATCH 18/37] fix: time-dependent tolls must keep their fraction

---
 src/io.cpp         | 2 +-
 src/multiclass.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 6143bfe..b877d7d 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -769,7 +769,7 @@ MNM_IO::build_link_td_attribute (const std::string &file_folder,
               _lane_hold_cap = TFlt (
                 std::stod (_words[6])); // jam density (vehicles/mile/lane)
               _number_of_lane = TInt (std::stoi (_words[7]));
-              _toll = TFlt (std::stoi (_words[8]));
+              _toll = TFlt (std::stod (_words[8]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 797cb38..29d4f51 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4238,7 +4238,7 @@ MNM_IO_Multiclass::build_link_td_attribute (const std::string &file_folder,
               _lane_flow_cap_truck = TFlt (std::stod (_words[9]));
               _lane_hold_cap_truck = TFlt (std::stod (_words[10]));
               _veh_convert_factor = TFlt (std::stod (_words[11]));
-              _toll = TFlt (std::stoi (_words[12]));
+              _toll = TFlt (std::stod (_words[12]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
-- 
2.43.0


From b611dda633e047df5f36cb1722cc463f52bb90fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:35 +0000
Subject: [PATCH 19/37] fix: multiclass CTM link flow must count each finished
 vehicle once

---
 src/multiclass.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 29d4f51..4b93fbe 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -874,7 +874,8 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_car ()
   TInt _total_volume_car = 0;
   for (int i = 0; i < m_num_cells; ++i)
     {
-      _total_volume_car += m_cell_array[i]->m_volume_car;
+      // m_volume_car of the last cell may include m_finished_array
+      _total_volume_car += m_cell_array[i]->m_veh_queue_car.size ();
     }
   std::deque<MNM_Veh *>::iterator _veh_it;
   for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
@@ -893,7 +894,8 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_truck ()
   TInt _total_volume_truck = 0;
   for (int i = 0; i < m_num_cells; ++i)
     {
-      _total_volume_truck += m_cell_array[i]->m_volume_truck;
+      // m_volume_truck of the last cell may include m_finished_array
+      _total_volume_truck += m_cell_array[i]->m_veh_queue_truck.size ();
     }
   std::deque<MNM_Veh *>::iterator _veh_it;
   for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
@@ -992,8 +994,9 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow ()
   TInt _total_volume_truck = 0;
   for (int i = 0; i < m_num_cells; ++i)
     {
-      _total_volume_car += m_cell_array[i]->m_volume_car;
-      _total_volume_truck += m_cell_array[i]->m_volume_truck;
+      // volumes of the last cell may include m_finished_array
+      _total_volume_car += m_cell_array[i]->m_veh_queue_car.size ();
+      _total_volume_truck += m_cell_array[i]->m_veh_queue_truck.size ();
     }
   return TFlt (_total_volume_car + _total_volume_truck
                + m_finished_array.size ())
-- 
2.43.0


From 4abdf9e6b424df9a93384e3d75cd2401bf890d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:35 +0000
Subject: [PATCH 20/37] fix: multiclass link queue must compare link density
 with link jam density

---
 src/multiclass.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 4b93fbe..948477d 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1873,8 +1873,7 @@ MNM_Dlink_Lq_Multiclass::get_link_tt ()
 {
   // For adaptive routing and emissions, need modification for multiclass cases
   TFlt _cost, _spd;
-  TFlt _rho = get_link_flow () / m_number_of_lane
-              / m_length; // get the density in veh/mile
+  TFlt _rho = get_link_flow () / m_length; // link density
   TFlt _rhoj = m_k_j_car; // get the jam density
   TFlt _rhok = m_k_C_car; // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
@@ -1903,9 +1902,9 @@ TFlt
 MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_car (TFlt flow)
 {
   TFlt _cost, _spd;
-  TFlt _rho = flow / m_number_of_lane / m_length; // get the density in veh/mile
-  TFlt _rhoj = m_k_j_car;                         // get the jam density
-  TFlt _rhok = m_k_C_car;                         // get the critical density
+  TFlt _rho = flow / m_length; // link density, as m_k_j and m_k_C
+  TFlt _rhoj = m_k_j_car;      // get the jam density
+  TFlt _rhok = m_k_C_car;      // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
   if (_rho >= _rhoj)
     {
@@ -1932,9 +1931,9 @@ TFlt
 MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_truck (TFlt flow)
 {
   TFlt _cost, _spd;
-  TFlt _rho = flow / m_number_of_lane / m_length; // get the density in veh/mile
-  TFlt _rhoj = m_k_j_truck;                       // get the jam density
-  TFlt _rhok = m_k_C_truck;                       // get the critical density
+  TFlt _rho = flow / m_length; // link density, as m_k_j and m_k_C
+  TFlt _rhoj = m_k_j_truck;    // get the jam density
+  TFlt _rhok = m_k_C_truck;    // get the critical density
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
   if (_rho >= _rhoj)
     {
-- 
2.43.0


From 5b01d3969b3973524d5dff5e525a4882f0a58d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:35 +0000
Subject: [PATCH 21/37] fix: multiclass link queue free-flow loading time must
 be in loading intervals

---
 src/multiclass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 948477d..b726c2c 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1963,7 +1963,7 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_car);
+  return MNM_Ults::round_up_time (m_length / (m_ffs_car * m_unit_time));
 }
 
 TInt
@@ -1972,7 +1972,7 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_truck);
+  return MNM_Ults::round_up_time (m_length / (m_ffs_truck * m_unit_time));
 }
 
 /// Multiclass point queue model
-- 
2.43.0


From 045f1d349c671350a05feaf3a700d6a90830110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:35 +0000
Subject: [PATCH 22/37] fix: multiclass link queue must not read its perceived
 density before it is set

---
 src/multiclass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index b726c2c..1cc8fc7 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1388,6 +1388,9 @@ MNM_Dlink_Lq_Multiclass::MNM_Dlink_Lq_Multiclass (
   m_space_fraction_car = TFlt (1);
   m_space_fraction_truck = TFlt (0);
 
+  m_perceived_density_car = TFlt (0);
+  m_perceived_density_truck = TFlt (0);
+
   m_flow_scalar = flow_scalar;
   m_unit_time = unit_time;
   m_veh_convert_factor = veh_convert_factor;
-- 
2.43.0


From 54fe6f9d0e66206307a477e2ead527b874a3f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:29 +0000
Subject: [PATCH 23/37] fix: multiclass demand must not assume 15-minute
 assignment intervals

---
 src/multiclass.cpp | 32 ++++++++++++++++++--------------
 src/multiclass.h   |  6 ++++--
 src/multimodal.cpp |  3 ++-
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 1cc8fc7..703c9c5 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2985,18 +2985,19 @@ MNM_Origin_Multiclass::generate_label (TInt veh_class)
 
 int
 MNM_Origin_Multiclass::add_dest_demand_multiclass (
-  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck)
+  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck,
+  TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // demand of each assignment interval is split to 1-minute demand
+  double *_demand_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_car[i] = TFlt (demand_car[i]);
     }
   m_demand_car.insert ({ dest, _demand_car });
 
-  double *_demand_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_truck = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_truck[i] = TFlt (demand_truck[i]);
     }
@@ -3007,18 +3008,19 @@ MNM_Origin_Multiclass::add_dest_demand_multiclass (
 
 int
 MNM_Origin_Multiclass::add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck)
+                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                                           TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  TFlt *_ratio_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // ratio of each assignment interval is split to 1-minute ratio
+  TFlt *_ratio_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _ratio_car[i] = TFlt (ad_ratio_car[i]);
     }
   m_adaptive_ratio_car.insert ({ dest, _ratio_car });
 
-  TFlt *_ratio_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  TFlt *_ratio_truck = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _ratio_truck[i] = TFlt (ad_ratio_truck[i]);
     }
@@ -3909,7 +3911,8 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
               _dest = dynamic_cast<MNM_Destination_Multiclass *> (
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _num_of_minute);
             }
           else
             {
@@ -3989,7 +3992,8 @@ MNM_IO_Multiclass::build_td_adaptive_ratio (const std::string &file_folder,
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_adaptive_ratio_multiclass (_dest, 
                                                            _ratio_vector_car,
-                                                           _ratio_vector_truck);
+                                                           _ratio_vector_truck,
+                                                           _num_of_minute);
             }
           else
             {
diff --git a/src/multiclass.h b/src/multiclass.h
index a3e2bce..1075e3c 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -418,9 +418,11 @@ public:
 
   // use this one instead of add_dest_demand in the base class
   int add_dest_demand_multiclass (MNM_Destination_Multiclass *dest,
-                                  TFlt *demand_car, TFlt *demand_truck);
+                                  TFlt *demand_car, TFlt *demand_truck,
+                                  TInt num_of_minute = 15);
   int add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck);
+                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                          TInt num_of_minute = 15);
   // two new unordered_map for both classes
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 78d271e..0743e39 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -8621,7 +8621,8 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _num_of_minute);
             }
           else
             {
-- 
2.43.0


From bc0031a4c3f8280a3d3ec6b0f9422064f793cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:49 +0000
Subject: [PATCH 24/37] fix: DUE and DSO release their per-link arrays with
 delete[]

---
 src/dso.cpp | 4 ++--
 src/due.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dso.cpp b/src/dso.cpp
index 44b0428..1fb031f 100644
--- a/src/dso.cpp
+++ b/src/dso.cpp
@@ -11,12 +11,12 @@ MNM_Dso::~MNM_Dso ()
 {
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
diff --git a/src/due.cpp b/src/due.cpp
index d4fa8ed..ebb3fa9 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -398,12 +398,12 @@ MNM_Due_Msa::~MNM_Due_Msa ()
 {
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
   delete m_base_dta;
-- 
2.43.0


From 2cf73ec7e7b29547f1dceb342128d10d1887370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:10 +0000
Subject: [PATCH 25/37] fix: MSA takes the flow of a new route from the others
 without going negative

---
 src/due.cpp | 47 ++++++++++++++---------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index ebb3fa9..9c6214e 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -556,7 +556,7 @@ MNM_Due_Msa::update_path_table (MNM_Dta *dta, int iter)
   std::pair<MNM_Path *, TInt> _path_result;
   MNM_Path *_path;
   MNM_Pathset *_path_set;
-  TFlt _tot_change, _tmp_change, _tot_oneOD_demand, _len;
+  TFlt _tot_change, _tmp_change, _tot_oneOD_demand;
   MNM_Path *_best_path;
   int _best_time_col;
   int _best_assign_col;
@@ -644,42 +644,23 @@ MNM_Due_Msa::update_path_table (MNM_Dta *dta, int iter)
               //         _path->m_travel_disutility_vec.empty());
               // update_one_path_cost(_path, _orig_node_ID, _dest_node_ID, dta);
 
-              // Original
+              // the new route takes the same share from every other route and
+              // departure interval as an existing one
               _path->allocate_buffer (m_total_assign_inter);
-              _path->m_buffer[_best_assign_col]
-                += m_step_size / TFlt (iter + 1);
-              _len = TFlt (_path_set->m_path_vec.size ());
-              for (auto tmp_path : _path_set->m_path_vec)
+              for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  tmp_path->m_buffer[_best_assign_col]
-                    -= m_step_size / TFlt (iter + 1) / _len;
+                  for (int _col = 0; _col < m_total_assign_inter; _col++)
+                    {
+                      _tmp_change
+                        = std::min (_tmp_path->m_buffer[_col],
+                                    _tot_oneOD_demand * m_step_size
+                                      / TFlt (iter + 1));
+                      _tmp_path->m_buffer[_col] -= _tmp_change;
+                      _tot_change += _tmp_change;
+                    }
                 }
+              _path->m_buffer[_best_assign_col] += _tot_change;
               _path_set->m_path_vec.push_back (_path);
-
-              // Modified by Zou
-              //                _path->allocate_buffer(m_total_assign_inter);
-              //                _path_set->m_path_vec.push_back(_path);
-              //                for (auto _tmp_path : _path_set->m_path_vec) {
-              //                    for (int _col = 0; _col <
-              //                    m_total_assign_inter; _col++) {
-              //                        if ((!(*_tmp_path == *_path)) || (_col
-              //                        != _best_assign_col)) {
-              //                            _tmp_change =
-              //                            _tmp_path->m_buffer[_col] *
-              //                            m_step_size / TFlt(iter + 1);
-              //                            // printf("tmp change %lf\n",
-              //                            _tmp_change());
-              //                            _tmp_path->m_buffer[_col] -=
-              //                            _tmp_change; _tot_change +=
-              //                            _tmp_change;
-              //                        }
-              //                    }
-              //                    if (*_tmp_path == *_path) {
-              //                        _best_path = _tmp_path;
-              //                    }
-              //                }
-              //                _best_path->m_buffer[_best_assign_col] +=
-              //                _tot_change;
             }
         }
       delete _tdsp_tree;
-- 
2.43.0


From 2e0c5863f0f0490be2842fc483966b5f36207a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:10 +0000
Subject: [PATCH 26/37] fix: MSA compares departure times by travel time, not
 by route cost taken for a time

---
 src/due.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index 9c6214e..1be640e 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -493,10 +493,11 @@ MNM_Due_Msa::get_best_route (TInt o_node_ID, MNM_TDSP_Tree *tdsp_tree)
   TFlt _tmp_tt, _tmp_cost;
   for (int i = 0; i < tdsp_tree->m_max_interval; ++i)
     { // tdsp_tree -> m_max_interval = total_loading_interval
-      _tmp_tt
-        = tdsp_tree->m_dist[o_node_ID][i < (int) tdsp_tree->m_max_interval
-                                         ? i
-                                         : (int) tdsp_tree->m_max_interval - 1];
+      // travel time of the cheapest route leaving at i (m_dist is its cost)
+      MNM_Path _tmp_path;
+      _tmp_tt = tdsp_tree->get_tdsp (o_node_ID, i, m_link_tt_map, &_tmp_path);
+      if (_tmp_tt < 0)
+        continue;
       std::cout << "interval: " << i << ", tdsp_tt: " << _tmp_tt << "\n";
       _tmp_cost = get_disutility (TFlt (i), _tmp_tt);
       if (_tmp_cost < _cur_best_cost)
-- 
2.43.0


From d64e10bddc7ce64fb63e4cc955c567e2d7e6d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:19 +0000
Subject: [PATCH 27/37] fix: gradient projection keeps the demand when the
 cheapest route is unused and not better

---
 src/due.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index 1be640e..4594f66 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -787,7 +787,7 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
   MNM_Path *_path;
   MNM_Pathset *_path_set;
   TFlt _tot_path_cost, _tmp_change, _tau, _tmp_tt, _tmp_cost, _min_flow;
-  bool _exist, _flg;
+  bool _exist, _flg, _use_path;
 
   // assume build_link_cost_map(dta) and update_path_table_cost(dta) are invoked
   // beforehand
@@ -853,7 +853,7 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
               // average path cost
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if (_tmp_path->m_buffer[_col] > 0)
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
@@ -874,11 +874,34 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
                         }
                     }
                 }
+              // the best route joins unless it has neither flow to give away nor
+              // a lower disutility than the routes in use
+              _use_path = true;
+              for (auto _tmp_path : _path_set->m_path_vec)
+                {
+                  if ((*_tmp_path == *_path)
+                      && !(_tmp_path->m_buffer[_col] > 0))
+                    {
+                      _tmp_cost = _tmp_path->m_travel_disutility_vec[_col];
+                      if (_tot_nonzero_path > 0
+                          && _tmp_cost * _tot_nonzero_path >= _tot_path_cost)
+                        {
+                          _use_path = false;
+                        }
+                      else
+                        {
+                          _tot_path_cost += _tmp_cost;
+                          _tot_nonzero_path += 1;
+                        }
+                      break;
+                    }
+                }
               IAssert (_tot_nonzero_path > 0);
               // minimum tau
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if ((_use_path && *_tmp_path == *_path)
+                      || (_tmp_path->m_buffer[_col] > 0))
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
@@ -910,7 +933,8 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
               // flow adjustment
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if ((_use_path && *_tmp_path == *_path)
+                      || (_tmp_path->m_buffer[_col] > 0))
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
-- 
2.43.0


From 91cfd7037d7fcfb7959038d8f110958126441675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:51 +0000
Subject: [PATCH 28/37] fix: DSO marginal cost compares with the capacity of an
 interval, not of unit_time intervals

---
 src/dso.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dso.cpp b/src/dso.cpp
index 1fb031f..e109031 100644
--- a/src/dso.cpp
+++ b/src/dso.cpp
@@ -100,8 +100,7 @@ MNM_Dso::get_link_marginal_cost (MNM_Dta *dta)
                                                                          // / 5s
                   TFlt _cap = dynamic_cast<MNM_Dlink_Ctm *> (_link)
                                 ->m_cell_array.front ()
-                                ->m_flow_cap
-                              * dta->m_unit_time; // veh / 5s
+                                ->m_flow_cap; // veh / 5s
                   if (MNM_Ults::approximate_less_than (_inflow_rate
                                                          * dta->m_flow_scalar,
                                                        floor (
@@ -192,8 +191,7 @@ MNM_Dso::get_link_marginal_cost (MNM_Dta *dta)
                                                           + 1)); // veh / 5s
                           TFlt _cap = dynamic_cast<MNM_Dlink_Ctm *> (_link)
                                         ->m_cell_array.back ()
-                                        ->m_flow_cap
-                                      * dta->m_unit_time; // veh / 5s
+                                        ->m_flow_cap; // veh / 5s
                           if (MNM_Ults::
                                 approximate_equal (_outflow_rate
                                                      * dta->m_flow_scalar,
-- 
2.43.0


From 0761bf5256f811a3bb1757d27ae0a7f3b3b0b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:07 +0000
Subject: [PATCH 29/37] fix: count emission trips by vehicle ID, not by the
 address of deleted vehicles

---
 src/multiclass.cpp | 8 ++++----
 src/multiclass.h   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 703c9c5..d301d6b 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -5977,8 +5977,8 @@ MNM_Cumulative_Emission_Multiclass::MNM_Cumulative_Emission_Multiclass (
 
   m_ev_label_truck = ev_label_truck;
 
-  m_car_set = std::unordered_set<MNM_Veh *> ();
-  m_truck_set = std::unordered_set<MNM_Veh *> ();
+  m_car_set = std::unordered_set<TInt> ();
+  m_truck_set = std::unordered_set<TInt> ();
 }
 
 MNM_Cumulative_Emission_Multiclass::~MNM_Cumulative_Emission_Multiclass () { ; }
@@ -6163,11 +6163,11 @@ MNM_Cumulative_Emission_Multiclass::update (MNM_Veh_Factory *veh_factory)
         {
           if (_veh_multiclass->m_class == 0)
             {
-              m_car_set.insert (_veh_multiclass);
+              m_car_set.insert (_veh_multiclass->m_veh_ID);
             }
           if (_veh_multiclass->m_class == 1)
             {
-              m_truck_set.insert (_veh_multiclass);
+              m_truck_set.insert (_veh_multiclass->m_veh_ID);
             }
         }
     }
diff --git a/src/multiclass.h b/src/multiclass.h
index 1075e3c..fbd86bd 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -790,8 +790,8 @@ public:
 
   TInt m_ev_label_truck;
 
-  std::unordered_set<MNM_Veh *> m_car_set;
-  std::unordered_set<MNM_Veh *> m_truck_set;
+  std::unordered_set<TInt> m_car_set;
+  std::unordered_set<TInt> m_truck_set;
 };
 
 /******************************************************************************************************************
-- 
2.43.0


From af9e169a81173513c06aacb7fdfb0da58954ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:37 +0000
Subject: [PATCH 30/37] fix: release the per-link arrays of the Python DTA
 objects with delete[]

---
 macposts/_ext/dta.cpp   |  8 ++++----
 macposts/_ext/mcdta.cpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 03d9f20..8d36b49 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -184,25 +184,25 @@ Dta::~Dta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
 
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f7b8572..f6af64a 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -310,49 +310,49 @@ Mcdta::~Mcdta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _tt_it : m_link_tt_map_truck)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map_truck.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _cost_it : m_link_cost_map_truck)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map_truck.clear ();
 
   for (auto _it : m_link_congested_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_car.clear ();
 
   for (auto _it : m_link_congested_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_truck.clear ();
 
   for (auto _it : m_queue_dissipated_time_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_car.clear ();
 
   for (auto _it : m_queue_dissipated_time_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_truck.clear ();
 
-- 
2.43.0


From 3dc0b1c118b66cdd5357ca091f335ec9b462c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:55 +0000
Subject: [PATCH 31/37] fix: size the link time and cost maps for the intervals
 of the current loading

---
 macposts/_ext/dta.cpp   | 32 +++++++------------
 macposts/_ext/mcdta.cpp | 69 ++++++++++++++---------------------------
 2 files changed, 36 insertions(+), 65 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 8d36b49..37191b2 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1007,25 +1007,20 @@ Dta::build_link_cost_map (bool with_congestion_indicator)
     {
       // #pragma omp task
       _link = _link_it.second;
-      if (m_link_tt_map.find (_link_it.first) == m_link_tt_map.end ())
-        {
-          m_link_tt_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
-        }
-      if (m_link_cost_map.find (_link_it.first) == m_link_cost_map.end ())
-        {
-          m_link_cost_map[_link_it.first]
-            = new TFlt[get_cur_loading_interval ()];
-        }
+      delete[] m_link_tt_map[_link_it.first];
+      m_link_tt_map[_link_it.first]
+        = new TFlt[get_cur_loading_interval ()];
+      delete[] m_link_cost_map[_link_it.first];
+      m_link_cost_map[_link_it.first]
+        = new TFlt[get_cur_loading_interval ()];
       if (with_congestion_indicator)
         {
           // std::cout << "car, interval: " << i << ", link: " << _link_it.first
           // << ", tt: " << m_link_tt_map[_link_it.first][i] << ", fftt: " <<
           // _link -> get_link_freeflow_tt_car() / m_unit_time << "\n";
-          if (m_link_congested.find (_link_it.first) == m_link_congested.end ())
-            {
-              m_link_congested[_link_it.first]
-                = new bool[get_cur_loading_interval ()];
-            }
+          delete[] m_link_congested[_link_it.first];
+          m_link_congested[_link_it.first]
+            = new bool[get_cur_loading_interval ()];
         }
 
       std::cout << "********************** build_link_cost_map link "
@@ -1070,12 +1065,9 @@ Dta::get_link_queue_dissipated_time ()
                "**********************\n";
   for (auto _link_it : m_dta->m_link_factory->m_link_map)
     {
-      if (m_queue_dissipated_time.find (_link_it.first)
-          == m_queue_dissipated_time.end ())
-        {
-          m_queue_dissipated_time[_link_it.first]
-            = new int[_total_loading_inter];
-        }
+      delete[] m_queue_dissipated_time[_link_it.first];
+      m_queue_dissipated_time[_link_it.first]
+        = new int[_total_loading_inter];
       // std::cout << "********************** get_link_queue_dissipated_time
       // link " << _link_it.first << " **********************\n";
       for (int i = 0; i < _total_loading_inter; i++)
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f6af64a..f2f4551 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -871,42 +871,27 @@ Mcdta::build_link_cost_map (bool with_congestion_indicator)
       // #pragma omp task
       _link = dynamic_cast<MNM_Dlink_Multiclass *> (_link_it.second);
 
-      if (m_link_tt_map.find (_link_it.first) == m_link_tt_map.end ())
-        {
-          m_link_tt_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
-        }
-      if (m_link_cost_map.find (_link_it.first) == m_link_cost_map.end ())
-        {
-          m_link_cost_map[_link_it.first]
-            = new TFlt[get_cur_loading_interval ()];
-        }
-      if (m_link_tt_map_truck.find (_link_it.first)
-          == m_link_tt_map_truck.end ())
-        {
-          m_link_tt_map_truck[_link_it.first]
-            = new TFlt[get_cur_loading_interval ()];
-        }
-      if (m_link_cost_map_truck.find (_link_it.first)
-          == m_link_cost_map_truck.end ())
-        {
-          m_link_cost_map_truck[_link_it.first]
-            = new TFlt[get_cur_loading_interval ()];
-        }
+      delete[] m_link_tt_map[_link_it.first];
+      m_link_tt_map[_link_it.first]
+        = new TFlt[get_cur_loading_interval ()];
+      delete[] m_link_cost_map[_link_it.first];
+      m_link_cost_map[_link_it.first]
+        = new TFlt[get_cur_loading_interval ()];
+      delete[] m_link_tt_map_truck[_link_it.first];
+      m_link_tt_map_truck[_link_it.first]
+        = new TFlt[get_cur_loading_interval ()];
+      delete[] m_link_cost_map_truck[_link_it.first];
+      m_link_cost_map_truck[_link_it.first]
+        = new TFlt[get_cur_loading_interval ()];
 
       if (with_congestion_indicator)
         {
-          if (m_link_congested_car.find (_link_it.first)
-              == m_link_congested_car.end ())
-            {
-              m_link_congested_car[_link_it.first]
-                = new bool[get_cur_loading_interval ()];
-            }
-          if (m_link_congested_truck.find (_link_it.first)
-              == m_link_congested_truck.end ())
-            {
-              m_link_congested_truck[_link_it.first]
-                = new bool[get_cur_loading_interval ()];
-            }
+          delete[] m_link_congested_car[_link_it.first];
+          m_link_congested_car[_link_it.first]
+            = new bool[get_cur_loading_interval ()];
+          delete[] m_link_congested_truck[_link_it.first];
+          m_link_congested_truck[_link_it.first]
+            = new bool[get_cur_loading_interval ()];
         }
 
       std::cout << "********************** build_link_cost_map link "
@@ -987,18 +972,12 @@ Mcdta::get_link_queue_dissipated_time ()
                "**********************\n";
   for (auto _link_it : m_mcdta->m_link_factory->m_link_map)
     {
-      if (m_queue_dissipated_time_car.find (_link_it.first)
-          == m_queue_dissipated_time_car.end ())
-        {
-          m_queue_dissipated_time_car[_link_it.first]
-            = new int[_total_loading_inter];
-        }
-      if (m_queue_dissipated_time_truck.find (_link_it.first)
-          == m_queue_dissipated_time_truck.end ())
-        {
-          m_queue_dissipated_time_truck[_link_it.first]
-            = new int[_total_loading_inter];
-        }
+      delete[] m_queue_dissipated_time_car[_link_it.first];
+      m_queue_dissipated_time_car[_link_it.first]
+        = new int[_total_loading_inter];
+      delete[] m_queue_dissipated_time_truck[_link_it.first];
+      m_queue_dissipated_time_truck[_link_it.first]
+        = new int[_total_loading_inter];
       // std::cout << "********************** get_link_queue_dissipated_time
       // link " << _link_it.first << " **********************\n";
       for (int i = 0; i < _total_loading_inter; i++)
-- 
2.43.0


From db471994ca32c0aa9af1d60712ccaa490e16f3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:55 +0000
Subject: [PATCH 32/37] fix: cover origin and destination connectors when
 generating paths

---
 macposts/_ext/dta.cpp   | 22 +++++++++++++--------
 macposts/_ext/mcdta.cpp | 44 ++++++++++++++++++++++++++---------------
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 37191b2..9c69ac5 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1480,14 +1480,20 @@ Dta::generate_paths_to_cover_registered_links ()
               for (auto _it_it : pair_ptrs_2)
                 {
                   _dest = _it_it.first;
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  // no tree is built if the link itself starts at an origin or
+                  // ends at a destination
+                  if ((_shortest_path_tree.empty ()
+                         ? _origin->m_origin_node->m_node_ID == _from_node_ID
+                         : _shortest_path_tree
+                               .find (_origin->m_origin_node->m_node_ID)
+                               ->second
+                             != -1)
+                      && (_shortest_path_tree_reversed.empty ()
+                            ? _dest->m_dest_node->m_node_ID == _to_node_ID
+                            : _shortest_path_tree_reversed
+                                  .find (_dest->m_dest_node->m_node_ID)
+                                  ->second
+                                != -1))
                     {
                       _flg = true;
                       break;
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f2f4551..41863a6 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -2574,14 +2574,20 @@ Mcdta::generate_paths_to_cover_registered_links ()
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  // no tree is built if the link itself starts at an origin or
+                  // ends at a destination
+                  if ((_shortest_path_tree.empty ()
+                         ? _origin->m_origin_node->m_node_ID == _from_node_ID
+                         : _shortest_path_tree
+                               .find (_origin->m_origin_node->m_node_ID)
+                               ->second
+                             != -1)
+                      && (_shortest_path_tree_reversed.empty ()
+                            ? _dest->m_dest_node->m_node_ID == _to_node_ID
+                            : _shortest_path_tree_reversed
+                                  .find (_dest->m_dest_node->m_node_ID)
+                                  ->second
+                                != -1))
                     {
                       _flg = true;
                       break;
@@ -2811,14 +2817,20 @@ Mcdta::generate_paths_to_cover_links (py::array_t<int> links, int max_iter)
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  // no tree is built if the link itself starts at an origin or
+                  // ends at a destination
+                  if ((_shortest_path_tree.empty ()
+                         ? _origin->m_origin_node->m_node_ID == _from_node_ID
+                         : _shortest_path_tree
+                               .find (_origin->m_origin_node->m_node_ID)
+                               ->second
+                             != -1)
+                      && (_shortest_path_tree_reversed.empty ()
+                            ? _dest->m_dest_node->m_node_ID == _to_node_ID
+                            : _shortest_path_tree_reversed
+                                  .find (_dest->m_dest_node->m_node_ID)
+                                  ->second
+                                != -1))
                     {
                       _flg = true;
                       break;
-- 
2.43.0


From 0bb73addc637adf5c74019da2ff5b8c02d6c2103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:55 +0000
Subject: [PATCH 33/37] fix: generate_paths_to_cover_links routes through the
 given links, not the registered ones

---
 macposts/_ext/mcdta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 41863a6..1a5394a 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -2744,7 +2744,7 @@ Mcdta::generate_paths_to_cover_links (py::array_t<int> links, int max_iter)
   for (int i = 0; i < num_links; ++i)
     {
       // generate new path including this link
-      auto &&sd = m_mcdta->m_graph.get_endpoints (m_link_vec[i]->m_link_ID);
+      auto &&sd = m_mcdta->m_graph.get_endpoints (TInt (links_ptr[i]));
       _from_node_ID = m_mcdta->m_graph.get_id (sd.first);
       _to_node_ID = m_mcdta->m_graph.get_id (sd.second);
 
-- 
2.43.0


From dbe56c817856f3b37996d90cc9ff40334cbe88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:26 +0000
Subject: [PATCH 34/37] fix: delete the TDSP trees of Mcdta before the graph
 they refer to

---
 macposts/_ext/mcdta.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 1a5394a..9d5bfdb 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -301,6 +301,15 @@ Mcdta::Mcdta ()
 
 Mcdta::~Mcdta ()
 {
+  // the trees refer to the graph of m_mcdta
+  if (!m_tdsp_tree_map.empty ())
+    {
+      for (auto _it : m_tdsp_tree_map)
+        {
+          delete _it.second;
+        }
+      m_tdsp_tree_map.clear ();
+    }
   if (m_mcdta != nullptr)
     {
       delete m_mcdta;
@@ -355,15 +364,6 @@ Mcdta::~Mcdta ()
       delete[] _it.second;
     }
   m_queue_dissipated_time_truck.clear ();
-
-  if (!m_tdsp_tree_map.empty ())
-    {
-      for (auto _it : m_tdsp_tree_map)
-        {
-          delete _it.second;
-        }
-      m_tdsp_tree_map.clear ();
-    }
 }
 
 int
-- 
2.43.0


From f204d7e3d25b878001ef6b30a2858b37f1f7b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:02 +0000
Subject: [PATCH 35/37] fix: do not read a finished passenger after deleting it

---
 src/multimodal.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 0743e39..b609b40 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -1845,11 +1845,6 @@ MNM_Passenger_Factory::remove_finished_passenger (MNM_Passenger *passenger,
   IAssert (passenger->m_finish_time > passenger->m_start_time);
   m_total_time_passenger
     += (passenger->m_finish_time - passenger->m_start_time);
-  if (del)
-    {
-      delete passenger;
-    }
-
   m_finished_passenger += 1;
   m_enroute_passenger -= 1;
   if (passenger->m_pnr)
@@ -1857,6 +1852,10 @@ MNM_Passenger_Factory::remove_finished_passenger (MNM_Passenger *passenger,
       m_finished_passenger_pnr += 1;
       m_enroute_passenger_pnr -= 1;
     }
+  if (del)
+    {
+      delete passenger;
+    }
   IAssert (m_num_passenger >= m_num_passenger_pnr);
   IAssert (m_num_passenger == m_finished_passenger + m_enroute_passenger);
   IAssert (m_num_passenger_pnr
-- 
2.43.0


From 3284955df3be744f18c85fdf93744301a6b1116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:02 +0000
Subject: [PATCH 36/37] fix: reinstall the bus curve trees of a bus link
 without freeing the passenger ones

---
 src/multimodal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index b609b40..d53d16d 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -3445,11 +3445,11 @@ MNM_Bus_Link::install_cumulative_curve_tree ()
   // bus
   if (m_N_in_tree_bus != nullptr)
     {
-      delete m_N_in_tree;
+      delete m_N_in_tree_bus;
     }
   if (m_N_out_tree_bus != nullptr)
     {
-      delete m_N_out_tree;
+      delete m_N_out_tree_bus;
     }
   m_N_in_tree_bus = new MNM_Tree_Cumulative_Curve ();
   // m_N_out_tree_bus = new MNM_Tree_Cumulative_Curve();
-- 
2.43.0


From e94bc0732c2e55f39ce1c478caf29556c8190a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:38 +0000
Subject: [PATCH 37/37] fix: count the vehicles travelling on a multimodal PQ
 link in its volume

---
 src/multimodal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index d53d16d..5becb64 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -3939,7 +3939,7 @@ MNM_Dlink_Pq_Multimodal::clear_incoming_array (TInt timestamp)
 
   m_volume_car = 0;
   m_volume_truck = 0;
-  for (auto _veh_it : m_veh_pool)
+  for (auto _veh_it : m_veh_queue)
     {
       auto *_veh_multimodal
         = dynamic_cast<MNM_Veh_Multimodal *> (_veh_it.first);
-- 
2.43.0

