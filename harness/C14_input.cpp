// vp-sources: core routing statistics pre_routing io vms workzone
// vp-reach: node link od graph demand ratio toll path buffer cost nodecost track label short comment bad
// vp-bounds: input files of 2-3 records in 4 layouts (plain, with comment and blank lines, with extra blanks, ending early); all numeric fields arbitrary (multiples of 1/8 up to 512 for real values; ids from small ranges; link length and speed from 3 combinations)
// vp-time: 200 900
#include "vp.h"
#include "conf_common.h"
#include "io.h"
#include "dlink.h"
#include <stdexcept>
#include <string>
#include <vector>
static int lay; // 0 plain, 1 comments and blank lines, 2 extra blanks, 3 ends early
static std::string file (const std::vector<std::string> &rows, bool comments_ok, bool early_ok, const char *head = nullptr)
{
  std::string s;
  if (head) s += std::string (head) + "\n";
  if (lay == 1 && comments_ok) s += "# comment 1 2 3\n\n";
  for (size_t i = 0; i < rows.size (); i++)
    {
      if (lay == 3 && early_ok && i + 1 == rows.size ()) break;
      std::string r = rows[i];
      if (lay == 2) { std::string q; for (char c : r) { q += c; if (c == ' ') q += ' '; } r = (comments_ok ? "  " : "") + q + (comments_ok ? " \t" : ""); }
      s += r + "\n";
      if (lay == 1 && comments_ok) s += i ? "   \n" : "#again\n";
    }
  return s;
}
static double D (const char *n) { return vp_dy (n, 0, 4096, 3); }
static bool near (double a, double b, double s) { double d = a - b; return vp_and (d <= 1e-9 * s, d >= -1e-9 * s); }
extern "C" int vp_main ()
{
  int what = vp_choose ("what", 12);
  lay = vp_choose ("layout", 4);
  if (lay == 1) vp_reach ("comment");
  MNM_Node_Factory nf; MNM_Link_Factory lf; MNM_OD_Factory of;
  bool th = false;
  if (what == 0)
    {
      int id = 5 + vp_choose ("id", 2), bad = vp_choose ("bad", 2);
      MNM_ConfReader *c = conf ("DTA", { { "num_of_node", "5" }, { "flow_scalar", "2" } });
      double v[] = { 1, (double) id, 3, 4, 9 };
      std::string d = vp_dir ();
      vp_write ((d + "/n").c_str (), file ({ "% FWJ", "% GRJ", "% DMOND", "% DMDND", bad ? "% XXX" : "% FWJ" }, true, true).c_str (), v);
      try { MNM_IO::build_node_factory (d, c, &nf, "n"); } catch (const std::runtime_error &) { th = true; }
      vp_assert (th == (bad || lay == 3), "malformed-or-short-file-is-an-error");
      if (th) { vp_reach ("short"); return 0; }
      vp_reach ("node");
      vp_assert (nf.m_node_map.size () == 5, "every-node-once");
      vp_assert (dynamic_cast<MNM_Dnode_FWJ *> (nf.get_node (1)) && dynamic_cast<MNM_Dnode_GRJ *> (nf.get_node (id)) && dynamic_cast<MNM_DMOND *> (nf.get_node (3)) && dynamic_cast<MNM_DMDND *> (nf.get_node (4)), "node-types");
      vp_assert (nf.get_node (id)->m_node_ID == id && nf.get_node (3)->m_flow_scalar == 2, "node-attributes");
      return 0;
    }
  if (what == 1)
    {
      static const char *TY[] = { "PQ", "LQ", "CTM", "LTM" };
      static const double LEN[] = { 0.5, 1, 0.25 }, SP[] = { 30, 45, 60 };
      int ty = vp_choose ("type", 4), g = vp_choose ("geometry", 3), lanes = 1 + vp_choose ("lanes", 3);
      static const double CAP[] = { 900, 1000.5, 1200 }, HOLD[] = { 150, 180.25, 200 };
      double cap = CAP[vp_choose ("cap", 3)], hold = HOLD[vp_choose ("hold", 3)];
      MNM_ConfReader *c = conf ("DTA", { { "num_of_link", "2" }, { "flow_scalar", "2" }, { "unit_time", "5" } });
      double v[] = { 7, LEN[g], SP[g], cap, hold, (double) lanes, 8, 1, 35, 2000, 180, 2 };
      std::string d = vp_dir ();
      vp_write ((d + "/l").c_str (), file ({ std::string ("% ") + TY[ty] + " % % % % %", "% PQ % % % % %" }, true, true).c_str (), v);
      try { MNM_IO::build_link_factory (d, c, &lf, "l"); } catch (const std::runtime_error &) { th = true; }
      vp_assert (th == (lay == 3), "malformed-or-short-file-is-an-error");
      if (th) return 0;
      vp_reach ("link");
      MNM_Dlink *l = lf.get_link (7);
      vp_assert (lf.m_link_map.size () == 2 && l->m_link_ID == 7, "every-link-once");
      vp_assert (near (l->m_length, LEN[g] * 1600, 1600) && near (l->m_ffs, SP[g] * 1600 / 3600, 100), "length-and-speed-converted");
      vp_assert (l->m_number_of_lane == lanes, "lanes");
      double lc = 0, lh = 0;
      if (auto *q = dynamic_cast<MNM_Dlink_Pq *> (l)) { lc = q->m_lane_flow_cap; lh = q->m_lane_hold_cap; vp_assert (ty == 0, "link-type"); }
      if (auto *q = dynamic_cast<MNM_Dlink_Lq *> (l)) { lc = q->m_lane_flow_cap; lh = q->m_lane_hold_cap; vp_assert (ty == 1, "link-type"); }
      if (auto *q = dynamic_cast<MNM_Dlink_Ctm *> (l)) { lc = q->m_lane_flow_cap; lh = q->m_lane_hold_cap; vp_assert (ty == 2, "link-type"); }
      if (auto *q = dynamic_cast<MNM_Dlink_Ltm *> (l)) { lc = q->m_lane_flow_cap; lh = q->m_lane_hold_cap; vp_assert (ty == 3, "link-type"); }
      vp_assert (near (lc * 3600, cap, 5000) && near (lh * 1600, hold, 5000), "capacity-and-density-converted");
      return 0;
    }
  if (what == 2)
    {
      nf.make_node (3, MNM_TYPE_ORIGIN, 1); nf.make_node (4, MNM_TYPE_DEST, 1); nf.make_node (5, MNM_TYPE_ORIGIN, 1);
      MNM_ConfReader *c = conf ("DTA", { { "num_of_O", "2" }, { "num_of_D", "1" }, { "flow_scalar", "3" }, { "max_interval", "6" }, { "assign_frq", "9" } });
      int a = vp_choose ("node", 2) ? 5 : 3;
      double v[] = { 100, (double) a, 101, (double) (8 - a), 200, 4 };
      std::string d = vp_dir ();
      vp_write ((d + "/o").c_str (), file ({ "% %", "% %", "% %" }, true, true).c_str (), v);
      try { MNM_IO::build_od_factory (d, c, &of, &nf, "o"); } catch (const std::runtime_error &) { th = true; }
      vp_assert (th == (lay == 3), "malformed-or-short-file-is-an-error");
      if (th) return 0;
      vp_reach ("od");
      MNM_Origin *o = of.get_origin (100);
      vp_assert (of.m_origin_map.size () == 2 && of.m_destination_map.size () == 1, "every-origin-and-destination-once");
      vp_assert (o->m_origin_node == nf.get_node (a) && o->m_origin_node->m_origin == o && o->m_frequency == 9 && o->m_max_assign_interval == 6 && o->m_flow_scalar == 3, "origin-attributes");
      vp_assert (of.get_origin (101)->m_origin_node == nf.get_node (8 - a), "origin-nodes");
      vp_assert (of.get_destination (200)->m_dest_node == nf.get_node (4) && of.get_destination (200)->m_dest_node->m_dest == of.get_destination (200), "destination-node");
      return 0;
    }
  if (what == 3)
    {
      MNM_ConfReader *c = conf ("DTA", { { "num_of_link", "3" }, { "network_name", "g" } });
      int b = 2 + vp_choose ("to", 2);
      double v[] = { 11, 1, (double) b, 12, 2, 3, 13, 1, 3 };
      std::string d = vp_dir ();
      vp_write ((d + "/g").c_str (), file ({ "% % %", "% % %", "% % %" }, true, true).c_str (), v);
      try
        {
          macposts::Graph g = MNM_IO::build_graph (d, c);
          vp_assert (lay != 3, "malformed-or-short-file-is-an-error");
          vp_reach ("graph");
          vp_assert (g.size_links () == 3 && g.size_nodes () == 3, "every-link-and-node-once");
          for (int i = 0; i < 3; i++)
            {
              auto e = g.get_endpoints (g.get_link ((int) v[3 * i]));
              vp_assert (g.get_id (e.first) == (int) v[3 * i + 1] && g.get_id (e.second) == (int) v[3 * i + 2], "link-ends");
            }
        }
      catch (const std::runtime_error &) { vp_assert (lay == 3, "well-formed-file-is-accepted"); }
      return 0;
    }
  of.make_origin (1, 3, 1, 1); of.make_origin (2, 3, 1, 1); of.make_destination (8); of.make_destination (9);
  if (what == 4 || what == 5)
    {
      MNM_ConfReader *c = conf ("DTA", { { "max_interval", "3" }, { "OD_pair", "3" } });
      int o = 1 + vp_choose ("origin", 2);
      double x[9]; std::vector<double> v;
      int O[] = { o, 3 - o, o }, Dd[] = { 8, 9, 9 };
      for (int r = 0; r < 3; r++) { v.push_back (O[r]); v.push_back (Dd[r]); for (int j = 0; j < 3; j++) v.push_back (x[3 * r + j] = D ("value")); }
      int bad = lay == 0 ? vp_choose ("bad", 2) : 0;
      std::string d = vp_dir ();
      vp_write ((d + "/d").c_str (), file ({ "% % % % %", bad ? "% % % %" : "% % % % %", "% % % % %" }, what == 4, what == 4, what == 5 ? "#O D ratios" : nullptr).c_str (), v.data ());
      try { if (what == 4) MNM_IO::build_demand (d, c, &of, "d"); else MNM_IO::build_td_adaptive_ratio (d, c, &of, "d"); } catch (const std::runtime_error &) { th = true; }
      vp_assert (th == (bad || (lay == 3 && what == 4)), "malformed-or-short-file-is-an-error");
      if (th) { vp_reach ("bad"); return 0; }
      vp_reach (what == 4 ? "demand" : "ratio");
      for (int r = 0; r < 3; r++)
        {
          auto &m = what == 4 ? of.get_origin (O[r])->m_demand : of.get_origin (O[r])->m_adaptive_ratio;
          vp_assert (m.count (of.get_destination (Dd[r])) == 1, "entry-for-each-pair");
          double *p = m[of.get_destination (Dd[r])];
          for (int j = 0; j < 3; j++) vp_assert (p[j] == x[3 * r + j], "value-per-pair-and-interval");
        }
      vp_assert (of.get_origin (o)->m_demand.size () + of.get_origin (o)->m_adaptive_ratio.size () == 2, "no-other-entries");
      return 0;
    }
  if (what == 6)
    {
      for (int i = 5; i < 8; i++) lf.make_link (i, MNM_TYPE_PQ, 20, 4, 1, 10, 10, 1, 1);
      MNM_ConfReader *c = conf ("DTA", { { "num_of_tolled_link", "2" } });
      int l = 5 + vp_choose ("link", 2);
      double v[] = { (double) l, D ("toll"), 7, D ("toll") };
      std::string d = vp_dir ();
      vp_write ((d + "/t").c_str (), file ({ "% %", "% %" }, false, true, "#link toll").c_str (), v);
      try { MNM_IO::build_link_toll (d, c, &lf, "t"); } catch (const std::runtime_error &) { th = true; }
      vp_assert (th == (lay == 3), "malformed-or-short-file-is-an-error");
      if (th) return 0;
      vp_reach ("toll");
      vp_assert (lf.get_link (l)->m_toll == v[1] && lf.get_link (7)->m_toll == v[3] && lf.get_link (11 - l)->m_toll == 0, "toll-per-link");
      return 0;
    }
  if (what == 7)
    {
      macposts::Graph g;
      for (int i = 1; i <= 4; i++) g.add_node (i, macposts::Empty ());
      g.add_link (1, 2, 11, macposts::Empty ()); g.add_link (2, 4, 12, macposts::Empty ()); g.add_link (1, 3, 13, macposts::Empty ()); g.add_link (3, 4, 14, macposts::Empty ()); g.add_link (2, 3, 15, macposts::Empty ());
      bool buf = vp_choose ("buffer", 2), bad = vp_choose ("bad", 2);
      int order = vp_choose ("order", 2), sep = vp_choose ("buffer-layout", 2);
      static const int PN[3][4] = { { 1, 2, 4, 0 }, { 1, 2, 3, 4 }, { 2, 3, 0, 0 } }, PL[3][3] = { { 11, 12, 0 }, { 11, 15, 14 }, { 15, 0, 0 } };
      std::vector<double> v, b; std::vector<std::string> rows;
      for (int r = 0; r < 3; r++)
        {
          int q = order ? 2 - r : r;
          std::string s;
          for (int i = 0; i < 4 && PN[q][i]; i++) { if (bad && q == 0 && i == 1) continue; v.push_back (PN[q][i]); s += s.empty () ? "%" : " %"; }
          rows.push_back (s);
          b.push_back (D ("share")); b.push_back (D ("share"));
        }
      int l0 = lay;
      std::string d = vp_dir ();
      vp_write ((d + "/p").c_str (), file (rows, true, true).c_str (), v.data ());
      if (buf) { lay = sep; vp_write ((d + "/p_buffer").c_str (), file ({ "% %", "% %", "% %" }, true, true).c_str (), b.data ()); lay = l0; }
      Path_Table *pt = nullptr;
      try { pt = MNM_IO::load_path_table (d + "/p", g, 3, buf); } catch (const std::runtime_error &) { th = true; }
      vp_assert (th == (bad || lay == 3), "malformed-or-short-file-is-an-error");
      if (th) return 0;
      vp_reach ("path");
      vp_assert (pt->size () == 2 && (*pt)[1]->size () == 1 && (*pt)[2]->size () == 1 && (*(*pt)[1])[4]->m_path_vec.size () == 2 && (*(*pt)[2])[3]->m_path_vec.size () == 1, "every-path-under-its-pair");
      for (int r = 0, k = 0; r < 3; r++)
        {
          int q = order ? 2 - r : r;
          MNM_Path *p = q == 2 ? (*(*pt)[2])[3]->m_path_vec[0] : (*(*pt)[1])[4]->m_path_vec[k++];
          size_t n = 0; while (n < 4 && PN[q][n]) n++;
          vp_assert (p->m_node_vec.size () == n && p->m_link_vec.size () == n - 1 && p->m_path_ID == r, "path-length-and-id");
          for (size_t i = 0; i < n && i < p->m_node_vec.size (); i++) vp_assert (p->m_node_vec[i] == PN[q][i], "path-nodes");
          for (size_t i = 0; i + 1 < n && i < p->m_link_vec.size (); i++) vp_assert (p->m_link_vec[i] == PL[q][i], "path-links");
          if (buf)
            {
              vp_reach ("buffer");
              vp_assert (p->m_buffer_length == 2, "buffer-length");
              if (p->m_buffer_length == 2) vp_assert (vp_and (p->m_buffer[0] == b[2 * r], p->m_buffer[1] == b[2 * r + 1]), "buffer-of-the-same-line");
            }
        }
      return 0;
    }
  if (what == 8 || what == 9)
    {
      int a = 3 + vp_choose ("link", 2);
      std::vector<double> v; double x[4];
      for (int r = 0; r < 2; r++)
        {
          if (what == 9) { v.push_back (1); v.push_back (a); v.push_back (5 + r); } else v.push_back (r ? 7 : a);
          for (int j = 0; j < 2; j++) v.push_back (x[2 * r + j] = D ("cost"));
        }
      std::unordered_map<TInt, TFlt *> lc; std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> nc;
      TFlt old[2] = { 5, 6 };
      bool stale = vp_choose ("stale", 2);
      if (stale) { lc[a] = old; lc[77] = new TFlt[2]; }
      std::string d = vp_dir (), row = what == 9 ? "% % % % %" : "% % %";
      vp_write ((d + "/c").c_str (), file ({ row, row }, false, true, "#header").c_str (), v.data ());
      try { if (what == 8) MNM_IO::read_td_link_cost (d, lc, 2, 2, "c"); else MNM_IO::read_td_node_cost (d, nc, 2, 2, "c"); } catch (const std::runtime_error &) { th = true; }
      vp_assert (th == (lay == 3), "malformed-or-short-file-is-an-error");
      if (th) return 0;
      vp_reach (what == 8 ? "cost" : "nodecost");
      for (int r = 0; r < 2; r++)
        for (int j = 0; j < 2; j++)
          {
            if (what == 8) vp_assert (lc.count (r ? 7 : a) && lc[r ? 7 : a][j] == x[2 * r + j], "cost-per-link-and-time");
            else vp_assert (nc.count (a) && nc[a].count (5 + r) && nc[a][5 + r][j] == x[2 * r + j], "cost-per-turn-and-time");
          }
      if (what == 8 && stale) vp_assert (lc[77][0] == 0 && lc[77][1] == 0, "links-not-listed-cost-nothing");
      vp_assert (lc.size () == (what == 8 ? 2 + stale : 2 * stale) && nc.size () == (what == 9), "no-other-entries");
      return 0;
    }
  if (what == 10)
    {
      std::vector<std::pair<int, int>> od; std::vector<int> iv;
      double v[] = { 1.0 + 3 * vp_choose ("o", 2), 5.0 + 7 * vp_choose ("d", 2), 4, 5 }, w[] = { 9.0 * vp_choose ("t", 2), 12 };
      bool has = vp_choose ("has", 2);
      std::string d = vp_dir ();
      if (has) vp_write ((d + "/MNM_input_od_tracking").c_str (), file ({ "% %", "% %" }, false, false, "#o d").c_str (), v);
      vp_write ((d + "/MNM_input_interval_tracking").c_str (), file ({ "%", "%" }, false, false, "#interval").c_str (), w);
      MNM_IO::read_vehicle_tracking_setting (d, &od, &iv);
      vp_reach ("track");
      vp_assert (od.size () == (has ? 2 : 0) && iv.size () == 2, "every-tracked-entry");
      if (has && od.size () == 2) vp_assert (od[0].first == v[0] && od[0].second == v[1] && od[1].first == 4 && od[1].second == 5, "tracked-pairs");
      vp_assert (iv[0] == w[0] && iv[1] == 12, "tracked-intervals");
      return 0;
    }
  MNM_ConfReader *c = conf ("DTA", { { "num_of_O", "2" }, { "num_of_vehicle_labels", "3" } });
  double v[8]; v[0] = 1; v[4] = 2;
  for (int i = 0; i < 8; i++) if (i % 4) v[i] = D ("ratio");
  std::string d = vp_dir ();
  vp_write ((d + "/MNM_input_origin_vehicle_label").c_str (), file ({ "% % % %", "% % % %" }, false, false, "#labels").c_str (), v);
  MNM_IO::read_origin_vehicle_label_ratio (d, c, &of);
  vp_reach ("label");
  for (int o = 0; o < 2; o++)
    {
      auto &l = of.get_origin (1 + o)->m_vehicle_label_ratio;
      vp_assert (l.size () == 3, "every-label");
      for (int i = 0; i < 3 && i < (int) l.size (); i++) vp_assert (l[i] == v[4 * o + 1 + i], "label-ratio");
    }
  return 0;
}
