// A small network in files: origin 1 -> 2 -> (3 | 5 -> 3) -> 4 destination, read by the library's own readers.
#pragma once
#include "vp.h"
#include "dta.h"
#include <stdexcept>
#include <string>
#include <vector>
struct Spec
{
  int unit = 5, frq = 2, start = 0, max = 2, scalar = 1, total = -1, nO = 1, nD = 1, nn = 5, nl = 5, split = 0, rec = 2;
  const char *routing = "Fixed", *mid = "CTM", *alt = "CTM", *node2 = "FWJ";
  const char *ratio = "0.5";
  double dem[2] = { 1, 1 };
  double share[2][2] = { { 1, 1 }, { 1, 1 } }; // route, interval
  const char *due = ""; // further sections of config.conf
  bool cut = false; // the destination cannot be reached
};
static std::string I (int x) { return std::to_string (x); }
static std::string put (const Spec &s)
{
  std::string d = vp_dir ();
  std::string c = "[DTA]\nnetwork_name = graph\nunit_time = " + I (s.unit) + "\ntotal_interval = " + I (s.total) + "\nassign_frq = " + I (s.frq) + "\nstart_assign_interval = " + I (s.start)
    + "\nmax_interval = " + I (s.max) + "\nflow_scalar = " + I (s.scalar) + "\nnum_of_link = " + I (s.nl) + "\nnum_of_node = " + I (s.nn) + "\nnum_of_O = " + I (s.nO) + "\nnum_of_D = " + I (s.nD)
    + "\nOD_pair = 1\nadaptive_ratio = " + s.ratio + "\nrouting_type = " + s.routing + "\ninit_demand_split = " + I (s.split)
    + "\n[STAT]\nrec_mode = LRn\nrec_mode_para = " + I (s.rec) + "\nrec_folder = record\nrec_volume = 1\nvolume_load_automatic_rec = 0\nvolume_record_automatic_rec = 0\nrec_tt = 1\ntt_load_automatic_rec = 0\ntt_record_automatic_rec = 0\n"
    + "[FIXED]\npath_file_name = path_table\nnum_path = 2\nchoice_portion = Buffer\nbuffer_length = " + I (s.max) + "\nroute_frq = " + I (s.frq) + "\n[ADAPTIVE]\nroute_frq = 1\n[HYBRID]\nroute_frq = 1\n" + s.due;
  vp_write ((d + "/config.conf").c_str (), c.c_str (), nullptr);
  vp_write ((d + "/graph").c_str (), s.cut ? "1 1 2\n2 2 3\n3 2 5\n5 5 3\n4 5 4\n6 4 3\n" : "1 1 2\n2 2 3\n3 2 5\n5 5 3\n4 3 4\n", nullptr);
  std::string t = std::string (" 0.05 35 720 160 1\n");
  vp_write ((d + "/MNM_input_link").c_str (), (std::string ("1 PQ 1 99999 99999 99999 1\n2 ") + s.mid + t + "3 " + s.alt + t + "5 " + s.alt + t + "4 PQ 1 99999 99999 99999 1\n").c_str (), nullptr);
  vp_write ((d + "/MNM_input_node").c_str (), (std::string ("1 DMOND\n2 ") + s.node2 + "\n3 FWJ\n4 DMDND\n5 FWJ\n").c_str (), nullptr);
  vp_write ((d + "/MNM_input_od").c_str (), "#origin\n7 1\n#destination\n8 4\n", nullptr);
  vp_write ((d + "/MNM_input_demand").c_str (), "7 8 % %\n", s.dem);
  vp_write ((d + "/path_table").c_str (), "1 2 3 4\n1 2 5 3 4\n", nullptr);
  const double b[4] = { s.share[0][0], s.share[0][1], s.share[1][0], s.share[1][1] };
  vp_write ((d + "/path_table_buffer").c_str (), "% %\n% %\n", b);
  return d;
}
