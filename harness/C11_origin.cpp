// vp-sources: core routing statistics pre_routing
// vp-reach: released fraction adaptive static shuffled
// vp-bounds: one origin with 1-2 destinations, 2 demand intervals, any demand (multiples of 1/4, up to 2.5 vehicles after scaling) in the released one, flow scalar 1 or 2, any adaptive ratios (multiples of 1/4, global and per destination), the first 7 random draws arbitrary
// vp-time: 300 1800
#include "vp.h"
#include "od.h"
#include "dnode.h"
#include "factory.h"
#include <stdexcept>
#include <vector>
extern "C" int vp_main ()
{
  double sc = 1 + vp_choose ("scalar", 2);
  int nd = 1 + vp_choose ("dests", 2);
  int a = vp_choose ("assign", 3) - 1;
  int cur = vp_choose ("cur", 2) ? 5 : 0;
  int freq = cur ? 2 : 1;
  MNM_DMOND node (1, sc);
  MNM_Origin o (9, 2, sc, freq);
  node.hook_up_origin (&o); o.m_origin_node = &node;
  MNM_Destination d0 (20), d1 (21);
  MNM_Destination *D[2] = { &d0, &d1 };
  MNM_Veh_Factory f;
  double dem[2][2];
  for (int k = 0; k < nd; k++)
    {
      for (int i = 0; i < 2; i++) dem[k][i] = i == a ? vp_dy ("demand", 0, nd == 2 ? 6 - 2 * k : 10, sc == 1 ? 2 : 3) : 9 + 3 * k;
      o.add_dest_demand (D[k], dem[k]);
    }
  double ratio = vp_choose ("ratio", 2) ? 0 : vp_dy ("global", 0, 4, 2);
  int own = vp_choose ("own", 1 + nd); // which destination has its own ratio (0 none)
  double orat[2] = { 0, 0 };
  if (own) { orat[0] = vp_dy ("own0", 0, 4, 2); orat[1] = vp_dy ("own1", 0, 4, 2); o.add_dest_adaptive_ratio (D[own - 1], orat); }
  vp_rand_limit (7);
  o.release_one_interval (cur, &f, a, ratio);
  int n = (int) node.m_in_veh_queue.size ();
  vp_assert (f.m_num_veh == n && f.m_enroute == n && (int) f.m_veh_map.size () == n, "every-released-vehicle-is-queued-once");
  if (a < 0) { vp_assert (n == 0, "nothing-before-the-first-interval"); return 0; }
  int cnt[2] = { 0, 0 };
  unsigned seen = 0;
  for (int x = 0; x < n; x++)
    {
      MNM_Veh *v = node.m_in_veh_queue[x];
      if (v->m_veh_ID != x + 1) vp_reach ("shuffled");
      vp_assert (v->m_veh_ID >= 1 && v->m_veh_ID <= n && !(seen & (1u << v->m_veh_ID)), "each-vehicle-queued-once");
      seen |= 1u << v->m_veh_ID;
      int q = v->get_destination () == &d1;
      cnt[q]++; vp_reach ("released");
      vp_assert (v->get_origin () == &o && v->m_start_time == cur && v->m_assign_interval == cur / freq && v->m_label == -1, "released-vehicle-fields");
      double r = own == q + 1 ? orat[a] : ratio;
      vp_assert (v->m_type == MNM_TYPE_ADAPTIVE || v->m_type == MNM_TYPE_STATIC, "released-vehicle-type");
      if (v->m_type == MNM_TYPE_ADAPTIVE) { vp_reach ("adaptive"); vp_assert (r > 0, "adaptive-only-with-a-positive-ratio"); }
      else { vp_reach ("static"); vp_assert (r < 1, "static-only-with-a-ratio-below-one"); }
    }
  for (int q = 0; q < 2; q++)
    {
      double e = q < nd ? dem[q][a] * sc : 0;
      vp_assert (vp_and (cnt[q] < e + 1, cnt[q] > e - 1), "released-count-is-the-rounded-demand");
      if (vp_not (cnt[q] == e)) vp_reach ("fraction");
    }
  return 0;
}
