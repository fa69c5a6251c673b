// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: record-due accumulating files one-class two-class no-record
// vp-bounds: link records: two links, averages over 1, 2 or 3 intervals, 7 consecutive intervals, every volume and travel time per class an arbitrary multiple of 1/8 up to 30; output files with given values for every switch setting
// vp-time: 300 900
#include "vp.h"
#include "multiclass.h"
#include "conf_common.h"
#include <fstream>
#include <sstream>
#include <string>
struct L1 : MNM_Dlink { double v = 0, t = 0; L1 (int id) : MNM_Dlink (id, 1, 100, 10) {} TFlt get_link_flow () override { return v; } TFlt get_link_tt () override { return t; } };
struct L2 : MNM_Dlink_Multiclass
{
  double v = 0, c = 0, k = 0, t = 0, tc = 0, tk = 0; int bad = 0;
  L2 (int id) : MNM_Dlink_Multiclass (id, 1, 100, 10, 8) {}
  TFlt get_link_flow () override { return v; }
  TFlt get_link_flow_car () override { return c; }
  TFlt get_link_flow_truck () override { return k; }
  TFlt get_link_tt () override { return t; }
  TFlt get_link_tt_from_flow_car (TFlt f) override { bad = vp_or (bad, vp_not (f == c)); return tc; }
  TFlt get_link_tt_from_flow_truck (TFlt f) override { bad = vp_or (bad, vp_not (f == k)); return tk; }
};
static int close (double a, double b) { return vp_and (a - b <= 1e-6, b - a <= 1e-6); }
static const char *YN[] = { "0", "1" };
static std::string num (double x) { return std::to_string (x); }
extern "C" int vp_main ()
{
  int two = vp_choose ("two-class", 2), files = vp_choose ("files", 2);
  static const char *NN[] = { "1", "2", "3" };
  int n = 1 + vp_choose ("average", 3), volume = 1, time = 1;
  int sw[4] = { 0, 0, 0, 0 };
  if (files) { int x = vp_choose ("switch", 6); if (x < 4) sw[x] = 1; else if (x == 4) sw[0] = sw[1] = sw[2] = sw[3] = 1; else { volume = vp_choose ("only", 2); time = 1 - volume; sw[0] = sw[1] = sw[2] = sw[3] = 1; vp_reach ("no-record"); } }
  std::string dir = vp_dir ();
  MNM_ConfReader *rec = conf ("STAT", { { "rec_mode", "LRn" }, { "rec_mode_para", NN[n - 1] }, { "rec_folder", "." }, { "rec_volume", YN[volume] }, { "rec_tt", YN[time] }, { "volume_load_automatic_rec", YN[sw[0]] }, { "volume_record_automatic_rec", YN[sw[1]] }, { "tt_load_automatic_rec", YN[sw[2]] }, { "tt_record_automatic_rec", YN[sw[3]] } });
  MNM_Link_Factory *lf = new MNM_Link_Factory ();
  L1 *a[2]; L2 *b[2];
  for (int i = 0; i < 2; i++) { if (two) lf->m_link_map[21 + i] = b[i] = new L2 (21 + i); else lf->m_link_map[21 + i] = a[i] = new L1 (21 + i); }
  MNM_Statistics_Lrn *st = two ? new MNM_Statistics_Lrn_Multiclass (dir, nullptr, rec, nullptr, nullptr, lf) : new MNM_Statistics_Lrn (dir, nullptr, rec, nullptr, nullptr, lf);
  MNM_Statistics_Lrn_Multiclass *sm = two ? (MNM_Statistics_Lrn_Multiclass *) st : nullptr;
  vp_reach (two ? "two-class" : "one-class");
  st->init_record ();
  double sum[2][6] = { { 0 } };
  // expected text of the files: per quantity (volume, tt) x (load, record) x class
  std::string want[2][2][3];
  std::string head = "Interval "; bool firstl = true; std::vector<int> order;
  for (auto &l : lf->m_link_map) { if (!firstl) head += " "; firstl = false; head += std::to_string ((int) l.first); order.push_back ((int) l.first - 21); }
  head += "\n";
  for (auto &x : want) for (auto &y : x) for (auto &z : y) z = head;
  for (int t = 0; t < (files ? 2 * n + 1 : 7); t++)
    {
      double q[2][6];
      for (int i = 0; i < 2; i++)
        {
          for (int k = 0; k < 6; k++)
            {
              bool used = two || k % 3 == 0;
              q[i][k] = !used ? 0 : files ? (1 + k + 3 * i + (t * (k + 2)) % 5) / 4.0 : vp_dy ("x", 0, 240, 3);
            }
          if (two) { b[i]->v = q[i][0]; b[i]->c = q[i][1]; b[i]->k = q[i][2]; b[i]->t = q[i][3]; b[i]->tc = q[i][4]; b[i]->tk = q[i][5]; }
          else { a[i]->v = q[i][0]; a[i]->t = q[i][3]; }
        }
      st->update_record (t);
      bool due = t % n == 0;
      vp_reach (due ? "record-due" : "accumulating");
      double rec6[2][6];
      for (int i = 0; i < 2; i++)
        {
          int id = 21 + i;
          for (int k = 0; k < 6; k++)
            {
              if (!two && k % 3) continue;
              if (k < 3 ? !volume : !time) continue;
              std::unordered_map<TInt, TFlt> *ld[6] = { &st->m_load_interval_volume, nullptr, nullptr, &st->m_load_interval_tt, nullptr, nullptr }, *rd[6] = { &st->m_record_interval_volume, nullptr, nullptr, &st->m_record_interval_tt, nullptr, nullptr };
              if (two) { ld[1] = &sm->m_load_interval_volume_car; ld[2] = &sm->m_load_interval_volume_truck; ld[4] = &sm->m_load_interval_tt_car; ld[5] = &sm->m_load_interval_tt_truck; rd[1] = &sm->m_record_interval_volume_car; rd[2] = &sm->m_record_interval_volume_truck; rd[4] = &sm->m_record_interval_tt_car; rd[5] = &sm->m_record_interval_tt_truck; }
              vp_assert (ld[k]->count (id) == 1 && rd[k]->count (id) == 1, "every-link-is-recorded");
              vp_assert ((*ld[k])[id] == q[i][k], "loading-interval-record-is-the-current-value");
              sum[i][k] += q[i][k];
              if (due)
                {
                  double m = t == 0 ? sum[i][k] : sum[i][k] / n;
                  vp_assert (close ((*rd[k])[id], m), "record-is-the-average-since-the-last-one");
                  rec6[i][k] = (*rd[k])[id];
                  sum[i][k] = 0;
                }
            }
          if (two) vp_assert (vp_not (b[i]->bad), "class-times-are-asked-for-the-flow-of-the-class");
        }
      if (files)
        for (int w = 0; w < 2; w++)
          for (int c = 0; c < 3; c++)
            {
              if (w == 0 ? !volume : !time) continue;
              std::string l = std::to_string (t), r = l;
              for (int i : order) { l += " " + num (q[i][3 * w + c]); if (due && (two || c == 0)) r += " " + num (rec6[i][3 * w + c]); }
              want[w][0][c] += l + "\n"; if (due) want[w][1][c] += r + "\n";
            }
    }
  st->post_record ();
  if (files)
    {
      static const char *W[] = { "volume", "tt" }, *LR[] = { "load", "record" }, *C[] = { "", "_car", "_truck" };
      for (int w = 0; w < 2; w++) for (int r = 0; r < 2; r++) for (int c = 0; c < (two ? 3 : 1); c++)
        {
          std::ifstream f (dir + "/./MNM_output_" + LR[r] + "_interval_" + W[w] + C[c]);
          bool on = sw[2 * w + r] && (w == 0 ? volume : time);
          vp_assert (f.is_open () == on, "files-are-written-as-configured");
          if (!on || !f.is_open ()) continue;
          std::stringstream ss; ss << f.rdbuf ();
          vp_assert (ss.str () == want[w][r][c], "file-lists-every-interval-in-header-order");
          vp_reach ("files");
        }
    }
  delete st;
  return 0;
}
