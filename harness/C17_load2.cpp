// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: car truck queued arrived adaptive static mixed
// vp-bounds: the same network with cars and trucks, read from files; the three two-class link models on the routes; fixed, adaptive and mixed two-class routing; 2 assignment intervals of 2 loading intervals, 0-2 cars and 0-1 trucks in the first, any car and truck demand (multiples of 1/2 up to 1) in the second, flow scalar 1 or 2, run to the end; the first 6 random draws (thorough: 8) arbitrary, then a fixed fair sequence
// vp-time: 300 1800
#include "dta_common.h"
#include "multiclass.h"
extern "C" int vp_main ()
{
  static const char *MT[] = { "CTM", "LQ", "PQ" }, *RA[] = { "0", "1", "0.5" };
  int m = vp_choose ("model", 3), r = vp_choose ("ratio", 3), sc = 1 + vp_choose ("scalar", 2);
  int mix = vp_choose ("first", 3); // first interval: 2 cars; car and truck; 2 cars and a truck
  double dem[4] = { mix == 1 ? 1. / sc : 2. / sc, vp_dy ("car", 0, 2, sc), mix ? 1. / sc : 0, vp_dy ("truck", 0, 2, sc) };
  std::string d = vp_dir ();
  std::string c = "[DTA]\nnetwork_name = graph\nunit_time = 30\ntotal_interval = -1\nassign_frq = 2\nstart_assign_interval = 0\nmax_interval = 2\nflow_scalar = " + I (sc)
    + "\nnum_of_link = 5\nnum_of_node = 5\nnum_of_O = 1\nnum_of_D = 1\nOD_pair = 1\nadaptive_ratio_car = " + RA[r] + "\nadaptive_ratio_truck = " + RA[(r + (r == 2)) % 3] + "\nrouting_type = Biclass_Hybrid\ninit_demand_split = 0\n"
    + "[STAT]\nrec_mode = LRn\nrec_mode_para = 2\nrec_folder = record\nrec_volume = 1\nvolume_load_automatic_rec = 0\nvolume_record_automatic_rec = 0\nrec_tt = 1\ntt_load_automatic_rec = 0\ntt_record_automatic_rec = 0\n"
    + "[FIXED]\npath_file_name = path_table\nnum_path = 2\nchoice_portion = Buffer\nbuffer_length = 4\nroute_frq = 2\n[ADAPTIVE]\nroute_frq = 1\n[HYBRID]\nroute_frq = 1\n";
  vp_write ((d + "/config.conf").c_str (), c.c_str (), nullptr);
  vp_write ((d + "/graph").c_str (), "1 1 2\n2 2 3\n3 2 5\n5 5 3\n4 3 4\n", nullptr);
  std::string t = " 0.3 35 240 80 1 25 120 40 2\n", pq = " PQ 1 99999 99999 99999 1 99999 99999 99999 2\n", a = MT[m], b = MT[(m + r) % 3];
  vp_write ((d + "/MNM_input_link").c_str (), ("1" + pq + "2 " + a + t + "3 " + b + t + "5 " + b + t + "4" + pq).c_str (), nullptr);
  vp_write ((d + "/MNM_input_node").c_str (), "1 DMOND 2\n2 FWJ 2\n3 FWJ 2\n4 DMDND 2\n5 FWJ 2\n", nullptr);
  vp_write ((d + "/MNM_input_od").c_str (), "#origin\n7 1\n#destination\n8 4\n", nullptr);
  vp_write ((d + "/MNM_input_demand").c_str (), "7 8 % % % %\n", dem);
  vp_write ((d + "/path_table").c_str (), "1 2 3 4\n1 2 5 3 4\n", nullptr);
  vp_write ((d + "/path_table_buffer").c_str (), "1 1 0 1\n1 1 1 1\n", nullptr);
  MNM_Dta_Multiclass dta (d);
  dta.build_from_files ();
  dta.hook_up_node_and_link ();
  vp_assert (dta.is_ok (), "a-consistent-network-is-accepted");
  auto *vf = dynamic_cast<MNM_Veh_Factory_Multiclass *> (dta.m_veh_factory);
  MNM_Dlink_Multiclass *L[6];
  for (int i = 1; i < 6; i++) { L[i] = dynamic_cast<MNM_Dlink_Multiclass *> (dta.m_link_factory->get_link (i)); L[i]->install_cumulative_curve_multiclass (); }
  vp_rand_limit (vp_tier () ? 8 : 6);
  dta.pre_loading ();
  MNM_Origin *o = dta.m_od_factory->get_origin (7);
  auto at = [&] (MNM_Cumulative_Curve *x, int u) { return (double) x->get_result (TFlt (u)); };
  double exp[2] = { 0, 0 };
  int n = 0, as = 0;
  bool more = true;
  vp_reach (r == 0 ? "static" : r == 1 ? "adaptive" : "mixed");
  while (more)
    {
      vp_assert (n < 80, "everyone-arrives-in-the-end");
      if (n % 2 == 0 && as < 2) for (int k = 0; k < 2; k++) exp[k] = exp[k] + dem[as + 2 * k] * sc;
      dta.load_once (false, n, as);
      int made[2] = { vf->m_num_car, vf->m_num_truck }, en[2] = { vf->m_enroute_car, vf->m_enroute_truck }, fi[2] = { vf->m_finished_car, vf->m_finished_truck };
      int on[2][6] = { { 0 }, { 0 } }, q[2] = { 0, 0 };
      for (auto *v : o->m_origin_node->m_in_veh_queue) q[v->get_class ()]++;
      for (auto &p : vf->m_veh_map) { MNM_Dlink *x = p.second->get_current_link (); if (x) on[p.second->get_class ()][(int) x->m_link_ID]++; }
      vp_assert (vf->m_num_veh == made[0] + made[1] && vf->m_enroute == en[0] + en[1] && vf->m_finished == fi[0] + fi[1] && (int) vf->m_veh_map.size () == vf->m_enroute, "totals-are-cars-plus-trucks");
      for (int k = 0; k < 2; k++)
        {
          auto IN = [&] (int i) { return at (k ? L[i]->m_N_in_truck : L[i]->m_N_in_car, n + 1); };
          auto OUT = [&] (int i) { return at (k ? L[i]->m_N_out_truck : L[i]->m_N_out_car, n + 1); };
          vp_assert (vp_and (made[k] < exp[k] + 1, made[k] > exp[k] - 1), "released-is-the-demand-of-the-class-so-far");
          vp_assert (made[k] == fi[k] + en[k], "created-is-finished-plus-en-route");
          int sum = q[k];
          for (int i = 1; i < 6; i++)
            {
              sum += on[k][i];
              vp_assert ((k ? L[i]->get_link_flow_truck () : L[i]->get_link_flow_car ()) * sc == on[k][i], "link-volume-is-the-vehicles-on-it");
              vp_assert ((IN (i) - OUT (i)) * sc == on[k][i], "curves-differ-by-the-vehicles-on-the-link");
              if (on[0][i] && on[1][i]) vp_reach ("queued");
            }
          vp_assert (sum == en[k], "everyone-en-route-is-on-a-link-or-waiting-at-the-origin");
          vp_assert (IN (1) * sc + q[k] == made[k], "released-vehicles-enter-or-wait");
          vp_assert (OUT (1) == IN (2) + IN (3), "diverge-conserves-flow");
          vp_assert (OUT (3) == IN (5), "series-conserves-flow");
          vp_assert (OUT (2) + OUT (5) == IN (4), "merge-conserves-flow");
          vp_assert (OUT (4) * sc == fi[k], "arrivals-leave-through-the-last-link");
        }
      vp_assert ((int) dta.m_enroute_veh_num.size () == n + 1 && dta.m_enroute_veh_num.back () == vf->m_enroute && (int) dta.m_queue_veh_num.size () == n + 1, "records-once-per-interval");
      if (++n % 2 == 0) as++;
      more = !dta.finished_loading (n) || as < 2;
    }
  if (vf->m_finished_car) vp_reach ("car");
  if (vf->m_finished_truck) vp_reach ("truck");
  vp_assert (vf->m_finished == vf->m_num_veh && vf->m_enroute == 0 && vf->m_veh_map.empty (), "everyone-has-arrived-when-loading-ends");
  vp_reach ("arrived");
  vp_obs_i ("n", n); vp_obs_i ("veh", vf->m_num_veh); vp_obs_d ("time", vf->m_total_time);
  return 0;
}
