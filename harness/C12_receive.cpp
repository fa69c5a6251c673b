// vp-sources: core routing statistics pre_routing
// vp-reach: deleted kept foreign outstanding again
// vp-bounds: up to 4 vehicles created at any interval 0..6, any number of them waiting at the destination node in any order of creation, received at any later interval, with and without deletion; a second destination; links with any number of vehicles at their end
// vp-time: 200 900
#include "vp.h"
#include "od.h"
#include "dnode.h"
#include "factory.h"
#include "routing.h"
#include <stdexcept>
#include <vector>
extern "C" int vp_main ()
{
  MNM_DMDND node (3, 1);
  MNM_Destination d (30), other (31);
  MNM_DMDND onode (4, 1); other.m_dest_node = &onode; onode.hook_up_destination (&other);
  d.m_dest_node = &node; node.hook_up_destination (&d);
  MNM_Veh_Factory f;
  macposts::Graph g;
  MNM_Routing routing (g, nullptr, nullptr, nullptr);
  MNM_Dlink_Pq l1 (1, 1, 1, 1, 10, 10, 1, 2), l2 (2, 1, 1, 1, 10, 10, 1, 2);
  double sc = 2;
  MNM_DMDND nd (5, sc);
  int what = vp_choose ("what", 2);
  if (what == 0)
    {
      // the destination node takes everyone waiting at the end of its links
      l1.install_cumulative_curve (); l2.install_cumulative_curve ();
      nd.add_in_link (&l1); nd.add_in_link (&l2);
      MNM_Dlink_Pq *L[2] = { &l1, &l2 };
      int c[2]; MNM_Veh *v[6]; int n = 0; bool bad = false;
      for (int k = 0; k < 2; k++)
        {
          c[k] = vp_conc (vp_int ("waiting", 0, 3));
          for (int i = 0; i < c[k]; i++)
            {
              v[n] = new MNM_Veh (n, 0); v[n]->set_current_link (L[k]); v[n]->set_next_link (nullptr);
              if (i == 1 && k == 1 && vp_choose ("wrong", 2)) { v[n]->set_next_link (&l1); bad = true; }
              L[k]->m_finished_array.push_back (v[n]); n++;
            }
        }
      int t = vp_int ("t", 0, 100);
      bool th = false;
      try { nd.evolve (t); } catch (const std::runtime_error &) { th = true; }
      vp_assert (th == bad, "only-arriving-vehicles-are-taken");
      if (th) { vp_reach ("foreign"); return 0; }
      vp_assert (l1.m_finished_array.empty () && l2.m_finished_array.empty () && (int) nd.m_out_veh_queue.size () == n, "everyone-arriving-is-taken");
      for (int i = 0; i < n; i++) { vp_assert (nd.m_out_veh_queue[i] == v[i], "in-order"); vp_assert (v[i]->get_current_link () == nullptr, "left-the-link"); }
      for (int k = 0; k < 2; k++) vp_assert (L[k]->m_N_out->get_result (t + 1) * sc == c[k], "arrivals-are-recorded");
      return 0;
    }
  int n = vp_conc (vp_int ("vehicles", 1, 4)), t = 7;
  MNM_Veh *v[4]; int start[4]; bool arrived[4], gone[4];
  for (int i = 0; i < n; i++)
    {
      start[i] = vp_int ("start", 0, 6);
      v[i] = f.make_veh (start[i], MNM_TYPE_STATIC);
      v[i]->set_destination (&d);
      arrived[i] = gone[i] = false;
      vp_assert (v[i]->m_start_time == start[i] && v[i]->m_veh_ID == i + 1, "vehicle-identity");
    }
  vp_assert (f.m_num_veh == n && f.m_enroute == n && f.m_finished == 0, "created-vehicles-are-enroute");
  int fin = 0; double total = 0;
  bool del = vp_choose ("delete", 2);
  for (int round = 0; round < 2; round++)
    {
      t += vp_int ("dt", round ? 1 : 0, 3);
      int q = 0;
      for (int i = 0; i < n; i++)
        if (!gone[i] && vp_choose ("arrives", 2)) { node.m_out_veh_queue.push_back (v[i]); arrived[i] = true; q++; fin++; total += t - start[i]; if (round) vp_reach ("again"); }
      bool foreign = round == 1 && vp_choose ("foreign", 2);
      MNM_Veh fv (99, 0);
      if (foreign) { fv.set_destination (&other); node.m_out_veh_queue.push_front (&fv); }
      bool th = false;
      try { d.receive (t, &routing, &f, del); } catch (const std::runtime_error &) { th = true; }
      vp_assert (th == foreign, "only-vehicles-of-this-destination-are-accepted");
      if (th) { vp_reach ("foreign"); return 0; }
      vp_assert (node.m_out_veh_queue.empty (), "queue-is-emptied");
      for (int i = 0; i < n; i++)
        if (arrived[i] && !gone[i])
          {
            gone[i] = true;
            if (!del) vp_assert (v[i]->m_finish_time == t, "finish-time-is-the-current-interval");
          }
      vp_assert (f.m_finished == fin && f.m_enroute == n - fin && f.m_num_veh == n, "created-equals-finished-plus-enroute");
      vp_assert (f.m_total_time == total, "total-time-is-the-sum-of-trip-times");
      vp_assert ((int) f.m_veh_map.size () == (del ? n - fin : n), "map-holds-the-remaining-vehicles");
      for (int i = 0; i < n; i++) vp_assert (f.m_veh_map.count (i + 1) == (del && gone[i] ? 0u : 1u), "map-content");
    }
  vp_reach (del ? "deleted" : "kept");
  if (fin < n) vp_reach ("outstanding");
  // a vehicle that is not in the factory is refused
  MNM_Veh stray (1000, 0);
  bool th = false;
  try { f.remove_finished_veh (&stray, true); } catch (const std::runtime_error &) { th = true; }
  vp_assert (th, "unknown-vehicle-is-an-error");
  return 0;
}
