// vp-sources: core routing statistics pre_routing
// vp-reach: done second fraction
// vp-bounds: one origin with 1-2 destinations, 2 demand intervals with any demand (multiples of 1/4, up to 2 vehicles per entry), flow scalar 1 or 2, interval-driven release over loading intervals 0..3, release frequency 1-3; every random draw
// vp-time: 300 1800
#include "vp.h"
#include "od.h"
#include "dnode.h"
#include "factory.h"
#include <stdexcept>
#include <vector>
extern "C" int vp_main ()
{
  double sc = 1 + vp_choose ("scalar", 2);
  int nd = 1 + vp_choose ("dests", 2);
  int freq = 1 + vp_choose ("freq", 3);
  MNM_DMOND node (1, sc);
  MNM_Origin o (9, 2, sc, freq);
  node.hook_up_origin (&o); o.m_origin_node = &node;
  MNM_Destination d0 (20), d1 (21);
  MNM_Destination *D[2] = { &d0, &d1 };
  MNM_Veh_Factory f;
  double dem[2][2];
  for (int k = 0; k < nd; k++)
    {
      for (int i = 0; i < 2; i++) dem[k][i] = vp_dy ("demand", 0, k ? 3 : 6, sc == 1 ? 2 : 3);
      o.add_dest_demand (D[k], dem[k]);
    }
      // interval-driven release: demand interval k leaves at the k-th multiple of the frequency
      int t = vp_conc (vp_int ("t", 0, 3)), got = 0;
      vp_rand_limit (4);
      for (int i = 0; i <= t; i++)
        {
          size_t before = node.m_in_veh_queue.size ();
          o.release (&f, i);
          int k = i / freq;
          bool due = i % freq == 0 && k < 2;
          if (!due) { vp_assert (node.m_in_veh_queue.size () == before, "nothing-released-between-intervals-or-after-the-last"); if (k >= 2) vp_reach ("done"); continue; }
          int cnt[2] = { 0, 0 };
          for (size_t x = before; x < node.m_in_veh_queue.size (); x++)
            {
              MNM_Veh *v = node.m_in_veh_queue[x];
              cnt[v->get_destination () == &d1]++;
              vp_assert (v->get_origin () == &o && v->m_start_time == i && v->m_type == MNM_TYPE_ADAPTIVE && v->m_label == -1, "released-vehicle-fields");
              got++;
            }
          for (int q = 0; q < 2; q++)
            {
              double e = q < nd ? dem[q][k] * sc : 0;
              vp_assert (vp_and (cnt[q] < e + 1, cnt[q] > e - 1), "released-count-is-the-rounded-demand");
            }
          if (nd == 1 && vp_not (cnt[0] == dem[0][k] * sc)) vp_reach ("fraction");
          if (k == 1) vp_reach ("second");
        }
      vp_assert (f.m_num_veh == got && f.m_enroute == got && f.m_finished == 0 && (int) f.m_veh_map.size () == got, "factory-counts-released-vehicles");
  return 0;
}
