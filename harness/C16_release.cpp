// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: released fraction adaptive static car truck label nolabel biclass
// vp-bounds: one two-class origin with 1-2 destinations, any car and truck demand of the released interval (multiples of 1/2 up to 1.5 vehicles after scaling), flow scalar 1 or 2, any adaptive ratio (multiples of 1/4, for both classes, per class and per destination), labels absent or with any of 4 ratio sets, the first 6 random draws arbitrary
// vp-time: 240 1800
#include "vp.h"
#include "multiclass.h"
#include <stdexcept>
#include <vector>
extern "C" int vp_main ()
{
  int mode = vp_choose ("mode", 3); // 0 any demand, 1 any adaptive ratio, 2 any labels
  double sc = 1 + (mode == 0 ? vp_choose ("scalar", 2) : 0);
  int nd = 1 + vp_choose ("dests", 2), a = mode == 0 ? vp_choose ("assign", 3) - 1 : 1, bi = vp_choose ("biclass", 2);
  if (bi) vp_reach ("biclass");
  int cur = a == 1 ? 7 : 0, freq = a == 1 ? 3 : 1;
  MNM_DMOND_Multiclass node (1, sc, 2);
  MNM_Origin_Multiclass o (9, 1, sc, freq);
  node.hook_up_origin (&o); o.m_origin_node = &node;
  MNM_Destination_Multiclass d0 (20), d1 (21);
  MNM_Destination_Multiclass *D[2] = { &d0, &d1 };
  MNM_Veh_Factory_Multiclass f;
  double dem[2][2] = { { 0, 0 }, { 0, 0 } };
  std::vector<double> x[2][2];
  int pick = nd == 2 ? vp_choose ("both", 2) : 2;
  for (int k = 0; k < nd; k++)
    {
      for (int c = 0; c < 2; c++) { x[k][c].assign (15, 6.0 + k); dem[k][c] = pick < 2 && c != (pick ^ k) ? 0 : mode == 0 ? vp_dy ("demand", 0, nd == 2 ? 2 : 3, sc == 1 ? 1 : 2) : 1; if (a >= 0) x[k][c][a] = dem[k][c]; }
      o.add_dest_demand_multiclass (D[k], x[k][0].data (), x[k][1].data ());
    }
  static const double R[] = { 0, 1, 0.5 };
  double ratio[2]; ratio[0] = mode == 1 ? R[vp_choose ("ratio", 3)] : mode == 2 ? 1 : 0; ratio[1] = bi && mode == 1 ? R[vp_choose ("ratio-truck", 3)] : ratio[0];
  int own = mode == 1 ? vp_choose ("own", 1 + nd) : 0;
  double orat[2] = { 0, 0 };
  if (own)
    {
      std::vector<double> rc (15, 0.5), rt (15, 0.5);
      int z = vp_choose ("own-ratio", 3); orat[0] = R[z]; orat[1] = R[(z + 1) % 3];
      if (a >= 0) { rc[a] = orat[0]; rt[a] = orat[1]; }
      o.add_dest_adaptive_ratio_multiclass (D[own - 1], rc.data (), rt.data ());
    }
  static const double LB[][2] = { { 0, 0 }, { 1, 0 }, { 0.25, 0.75 }, { 0, 1 } };
  int lab = mode == 2 ? vp_choose ("labels", 5) - 1 : -1;
  if (lab >= 0) { o.m_car_label_ratio.assign (LB[lab], LB[lab] + 2); o.m_truck_label_ratio.assign (LB[3 - lab], LB[3 - lab] + 2); }
  vp_rand_limit (vp_tier () ? 8 : 5);
  if (bi) o.release_one_interval_biclass (cur, &f, a, ratio[0], ratio[1]); else o.release_one_interval (cur, &f, a, ratio[0]);
  int n = (int) node.m_in_veh_queue.size ();
  vp_assert (f.m_num_veh == n && f.m_enroute == n && (int) f.m_veh_map.size () == n, "every-released-vehicle-is-queued-once");
  if (a < 0) { vp_assert (n == 0, "nothing-before-the-first-interval"); return 0; }
  int cnt[2][2] = { { 0, 0 }, { 0, 0 } };
  unsigned seen = 0;
  for (int i = 0; i < n; i++)
    {
      MNM_Veh *v = node.m_in_veh_queue[i];
      vp_assert (v->m_veh_ID >= 1 && v->m_veh_ID <= n && !(seen & (1u << v->m_veh_ID)), "each-vehicle-queued-once");
      seen |= 1u << v->m_veh_ID;
      int q = v->get_destination () == &d1, c = v->get_class ();
      vp_assert (q ? nd == 2 : v->get_destination () == &d0, "bound-for-a-demanded-destination");
      cnt[q][c]++; vp_reach ("released"); vp_reach (c ? "truck" : "car");
      vp_assert (v->get_origin () == &o && v->m_start_time == cur && v->m_assign_interval == cur / freq, "released-vehicle-fields");
      double r = own == q + 1 ? orat[c] : ratio[c];
      vp_assert (v->m_type == (r == 0 ? MNM_TYPE_STATIC : r == 1 ? MNM_TYPE_ADAPTIVE : v->m_type) && (v->m_type == MNM_TYPE_STATIC || v->m_type == MNM_TYPE_ADAPTIVE), "driver-type-follows-the-ratio-of-its-class-and-destination");
      vp_reach (v->m_type == MNM_TYPE_STATIC ? "static" : "adaptive");
      int lb = lab < 0 ? -1 : c ? 3 - lab : lab;
      if (lb <= 0) { vp_assert (v->m_label == -1, "no-label-without-ratios"); vp_reach ("nolabel"); }
      else { vp_assert (v->m_label >= 0 && v->m_label < 2 && (LB[lb][v->m_label] > 0 || v->m_label == 0), "label-has-a-positive-ratio"); vp_reach ("label"); }
    }
  for (int q = 0; q < nd; q++)
    for (int c = 0; c < 2; c++)
      {
        double e = dem[q][c] * sc;
        vp_assert (vp_and (cnt[q][c] < e + 1, cnt[q][c] > e - 1), "released-count-is-the-rounded-demand-of-its-class");
        if (nd == 1 && vp_conc (vp_not (cnt[q][c] == e))) vp_reach ("fraction");
      }
  vp_assert (f.m_num_car == cnt[0][0] + cnt[1][0] && f.m_num_truck == cnt[0][1] + cnt[1][1], "factory-counts-by-class");
  return 0;
}
