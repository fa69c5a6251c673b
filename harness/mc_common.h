// The network of dta_common.h with cars and trucks, in files.
#pragma once
#include "dta_common.h"
#include "multiclass.h"
struct Spec2
{
  int unit = 5, max = 2, scalar = 1; // (assignment intervals of one minute)
  const char *mid = "LQ", *alt = "LQ", *par = " 0.05 35 720 160 1 25 360 80 2\n";
  double dem[4] = { 1, 1, 1, 1 }; // cars, then trucks
};
static std::string put2 (const Spec2 &s)
{
  std::string d = vp_dir ();
  std::string c = "[DTA]\nnetwork_name = graph\nunit_time = " + I (s.unit) + "\ntotal_interval = -1\nassign_frq = " + I (60 / s.unit) + "\nstart_assign_interval = 0\nmax_interval = " + I (s.max) + "\nflow_scalar = " + I (s.scalar)
    + "\nnum_of_link = 5\nnum_of_node = 5\nnum_of_O = 1\nnum_of_D = 1\nOD_pair = 1\nadaptive_ratio_car = 0.5\nadaptive_ratio_truck = 0.5\nrouting_type = Biclass_Hybrid\ninit_demand_split = 0\n"
    + "[STAT]\nrec_mode = LRn\nrec_mode_para = 2\nrec_folder = record\nrec_volume = 1\nvolume_load_automatic_rec = 0\nvolume_record_automatic_rec = 0\nrec_tt = 1\ntt_load_automatic_rec = 0\ntt_record_automatic_rec = 0\n"
    + "[FIXED]\npath_file_name = path_table\nnum_path = 2\nchoice_portion = Buffer\nbuffer_length = 4\nroute_frq = 2\n[ADAPTIVE]\nroute_frq = 1\nvot = 900\n[HYBRID]\nroute_frq = 1\n";
  vp_write ((d + "/config.conf").c_str (), c.c_str (), nullptr);
  vp_write ((d + "/graph").c_str (), "1 1 2\n2 2 3\n3 2 5\n5 5 3\n4 3 4\n", nullptr);
  std::string pq = " PQ 1 99999 99999 99999 1 99999 99999 99999 2\n", t = s.par;
  vp_write ((d + "/MNM_input_link").c_str (), ("1" + pq + "2 " + s.mid + t + "3 " + s.alt + t + "5 " + s.alt + t + "4" + pq).c_str (), nullptr);
  vp_write ((d + "/MNM_input_node").c_str (), "1 DMOND 2\n2 FWJ 2\n3 FWJ 2\n4 DMDND 2\n5 FWJ 2\n", nullptr);
  vp_write ((d + "/MNM_input_od").c_str (), "#origin\n7 1\n#destination\n8 4\n", nullptr);
  vp_write ((d + "/MNM_input_demand").c_str (), "7 8 % % % %\n", s.dem);
  vp_write ((d + "/path_table").c_str (), "1 2 3 4\n1 2 5 3 4\n", nullptr);
  vp_write ((d + "/path_table_buffer").c_str (), "1 1 0 1\n1 1 1 1\n", nullptr);
  return d;
}
static MNM_Cumulative_Curve *CC (MNM_Dlink *l, int k, bool out = false) { auto *x = dynamic_cast<MNM_Dlink_Multiclass *> (l); return k ? (out ? x->m_N_out_truck : x->m_N_in_truck) : (out ? x->m_N_out_car : x->m_N_in_car); }
static int FF (MNM_Dlink *l, int k) { auto *x = dynamic_cast<MNM_Dlink_Multiclass *> (l); return (int) (k ? x->get_link_freeflow_tt_loading_truck () : x->get_link_freeflow_tt_loading_car ()); }
// the travel time of a class by its cumulative curves, in intervals
static double TT (MNM_Dlink *l, int k, double q, int end) { return MNM_DTA_GRADIENT::get_travel_time_from_cc (q, CC (l, k), CC (l, k, true), MNM_DTA_GRADIENT::get_last_valid_time (CC (l, k), CC (l, k, true), end), FF (l, k)); }
