// vp-sources: core dta routing statistics pre_routing io vms workzone emission gridlock_checker dta_gradient_utls
// vp-reach: records matrix file rejected unlisted stats queue
// vp-bounds: the five-link network with two routes read from files; 3 arrivals on two registered links (one arrival time arbitrary within 0..2 later, two arbitrary flows, multiples of 1/4 up to 16, route and departure interval among two each); two windows, one starting anywhere and of length 0..4; statistics of up to 3 vehicles with arbitrary departure and arrival times
// vp-time: 300 1200
// vp-flags: -DEIGEN_DONT_VECTORIZE
#include "dta_common.h"
#include "macposts/_ext/dta.cpp"
#include <fstream>
#include <sstream>
typedef macposts::dta::Dta Api;
typedef pybind11::array_t<int> AI; typedef pybind11::array_t<double> AD;
extern "C" int vp_main ()
{
  int what = vp_choose ("what", 5), th = 0;
  Spec s; s.routing = "Hybrid"; s.mid = what == 4 ? "CTM" : "LQ"; s.unit = 5; s.scalar = what == 3 ? 2 : 1;
  Api *d = new Api ();
  vp_assert (d->initialize (put (s)) == 0, "initialise");
  if (what == 3)
    {
      MNM_Veh_Factory *vf = d->m_dta->m_veh_factory;
      int n = vp_choose ("vehicles", 4), E = 20, done = 0; double tt = 0;
      d->m_dta->m_current_loading_interval = E;
      for (int i = 0; i < n; i++)
        {
          int t0 = vp_int ("departs", 0, 9);
          MNM_Veh *v = vf->make_veh (t0, MNM_TYPE_STATIC);
          if (vp_choose ("arrives", 2)) { int t1 = t0 + vp_int ("takes", 1, 9); v->finish (t1); vf->remove_finished_veh (v, true); done++; tt += t1 - t0; } else tt += E - t0;
        }
      AD r = d->get_travel_stats ();
      vp_assert (r.sh.size () == 1 && r.sh[0] == 4, "four-numbers");
      vp_assert (r[0] == n / 2., "released-vehicles");
      double h = tt * 5 / 3600 / 2;
      vp_assert (vp_and (r[1] - h <= 1e-9, h - r[1] <= 1e-9), "vehicle-hours-of-all-released-vehicles");
      vp_assert (r[2] == (n - done) / 2., "en-route-vehicles"); vp_assert (r[3] == done / 2., "finished-vehicles");
      vp_reach ("stats");
      d->delete_all_agents ();
      delete d;
      return 0;
    }
  if (what == 4)
    {
      // queue dissipation: the end of the congested spell that starts with (or right after) an interval
      const int E = 5; d->m_dta->m_current_loading_interval = E;
      d->install_cc ();
      d->build_link_cost_map (true);
      int c[5]; MNM_Dlink *l = d->m_dta->m_link_factory->get_link (2);
      double ff = l->get_link_freeflow_tt_loading ();
      for (int t = 0; t < E; t++) { c[t] = vp_choose ("congested", 2); d->m_link_congested[2][t] = c[t]; d->m_link_tt_map[2][t] = ff + c[t]; }
      double cap = dynamic_cast<MNM_Dlink_Ctm *> (l)->m_cell_array.back ()->m_flow_cap * s.unit;
      int full = vp_choose ("at-capacity", E + 1), k = (int) std::floor (cap);
      l->m_N_out->add_increment (std::pair<TFlt, TFlt> (1, 1)); 
      if (full < E) l->m_N_out->add_increment (std::pair<TFlt, TFlt> (full + ff + 1, k));
      l->m_N_out->add_increment (std::pair<TFlt, TFlt> (40, 1));
      d->get_link_queue_dissipated_time ();
      for (int t = 0; t < E; t++)
        {
          int end = t;
          if (c[t]) { while (end < E && c[end]) end++; }
          else if (t == full && k > 0)
            {
              // at capacity without delay: the end of the next congested spell
              end = t + 1; while (end < E && !(c[end - 1] && !c[end])) end++;
            }
          vp_assert (d->m_queue_dissipated_time[2][t] == end, "queue-is-gone-at-the-end-of-the-congested-spell");
          vp_assert (d->m_queue_dissipated_time[1][t] == t, "connectors-never-queue");
        }
      vp_reach ("queue");
      delete d;
      return 0;
    }
  int id[2] = { 3, 2 };
  d->register_links (AI{ id[0], id[1] });
  d->install_cc_tree ();
  MNM_Path *P[2];
  for (auto &x : d->m_ID_path_mapping) P[x.second->m_link_vec.size () - 3] = x.second;
  int none = what == 0 && vp_choose ("listed", 2); // only the second route is listed
  if (none) d->register_paths (AI{ (int) P[1]->m_path_ID }); else if (P[0]->m_path_ID == 0) d->register_paths (AI{ (int) P[0]->m_path_ID, (int) P[1]->m_path_ID }); else d->register_paths (AI{ (int) P[1]->m_path_ID, (int) P[0]->m_path_ID });
  const int E = 8; d->m_dta->m_current_loading_interval = E;
  struct Arr { int l, t, p, dep; double f; } a[3];
  int t = 1;
  for (int i = 0; i < 3; i++)
    {
      if (i == 1) t += what == 2 ? vp_choose ("gap", 3) : vp_int ("gap", 0, 2); else t += i;
      a[i].l = i == 2; a[i].t = t; a[i].p = i == 2 ? vp_choose ("route", 2) : i; a[i].dep = i == 1 ? vp_choose ("departure", 2) : 0;
      a[i].f = what == 2 ? 0.25 * (i + 1) : i ? vp_dy ("flow", 1, 64, 2) : 1.5;
      d->m_dta->m_link_factory->get_link (id[a[i].l])->m_N_in_tree->add_flow (a[i].t, a[i].f, P[a[i].p], a[i].dep);
    }
  // (the file is written for one window at a time)
  int s0 = what == 2 ? vp_choose ("start", E + 1) : vp_int ("start", 0, E), e0 = s0 + (what == 2 ? vp_choose ("len", 5) : vp_int ("len", 0, 4)), ok = e0 > s0 && s0 < E && e0 <= E;
  AI S{ 2, s0 }, F{ 5, e0 };
  auto want = [&] (int l, int w, int p, int dep) { double f = 0; int lo = w ? s0 : 2, hi = w ? e0 : 5; for (auto &x : a) if (x.l == l && x.p == p && x.dep == dep && x.t > lo && x.t <= hi) f += x.f; return f; };
  double fp[4] = { 0.5, 2, 1, 4 };
  AD fl (size_t (4)); for (int i = 0; i < 4; i++) fl[i] = fp[i];
  try
    {
      if (what == 0)
        {
          AD r = d->get_dar_matrix (S, F); th = 1;
          vp_assert (r.sh.size () == 2 && r.sh[1] == 5, "records-have-five-columns");
          int n = 0;
          for (int l = 0; l < 2; l++) for (int w = 0; w < 2; w++) for (int p = none; p < 2; p++) for (int dep = 0; dep < 2; dep++)
            {
              double f = want (l, w, p, dep); int hit = 0;
              for (int k = 0; k < r.sh[0]; k++)
                if (r[5 * k + 2] == id[l] && r[5 * k] == (int) P[p]->m_path_ID && r[5 * k + 1] == dep && r[5 * k + 3] == (w ? s0 : 2) && (s0 != 2 || vp_conc (k) >= 0)) { if (s0 == 2) continue; hit++; vp_assert (r[5 * k + 4] == f, "record-states-the-flow-of-the-window"); }
              if (s0 != 2) vp_assert (hit == (f > 0), "one-record-per-route-and-departure-with-flow");
              n += f > 0;
            }
          vp_assert (n == r.sh[0], "no-other-records");
          vp_reach (none ? "unlisted" : "records");
        }
      else if (what == 1)
        {
          SparseMatrixR m = d->get_complete_dar_matrix (S, F, 2, fl); th = 1;
          vp_assert (m.rows () == 4 && m.cols () == 4, "matrix-shape");
          for (int l = 0; l < 2; l++) for (int w = 0; w < 2; w++) for (int p = 0; p < 2; p++) for (int dep = 0; dep < 2; dep++)
            {
              int col = d->m_path_map[P[p]] + 2 * dep; double f = want (l, w, p, dep);
              vp_assert (m.coeff (l + 2 * w, col) * fp[col] == f, "share-of-route-flow-on-the-link");
            }
          vp_reach ("matrix");
        }
      else
        {
          std::string fn = std::string (vp_dir ()) + "/dar.txt";
          d->save_dar_matrix (S, F, fl, fn); th = 1;
          std::ifstream in (fn); std::string line; int n = 0;
          while (std::getline (in, line))
            {
              size_t c1 = line.find (','), c2 = line.find (',', c1 + 1); int x = std::stoi (line.substr (0, c1)), y = std::stoi (line.substr (c1 + 1, c2 - c1 - 1)); double v = std::stod (line.substr (c2 + 1));
              int p = d->m_path_map[P[0]] == y % 2 ? 0 : 1;
              vp_assert (x >= 0 && x < 4 && y >= 0 && y < 4, "file-indices");
              double f = want (x % 2, x / 2, p, y / 2), q = f / fp[y];
              vp_assert (f > 0 && v - q < 1e-6 && q - v < 1e-6, "file-lists-the-shares"); n++;
            }
          int m = 0; for (int l = 0; l < 2; l++) for (int w = 0; w < 2; w++) for (int p = 0; p < 2; p++) for (int dep = 0; dep < 2; dep++) m += want (l, w, p, dep) > 0;
          vp_assert (n == m, "file-lists-every-share"); vp_reach ("file");
        }
    }
  catch (const std::runtime_error &) { th = 2; vp_reach ("rejected"); }
  vp_assert (th == (ok ? 1 : 2), "windows-outside-the-loading-are-rejected");
  delete d;
  return 0;
}
