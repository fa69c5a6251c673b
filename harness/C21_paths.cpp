// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: route-time rejected covered generated connector longer-run unknown-path best given new-route
// vp-bounds: the five-link network with cars, trucks and two routes read from files; 2 vehicles per link and class with one delay arbitrary (0..3); departures from 0 to one past the loaded intervals; route lists of no, one or both routes, one or two registered or given links of all kinds (both connectors included); arbitrary tolls (multiples of 1/4 up to 16) for the least-cost route
// vp-time: 300 1200
// vp-flags: -DEIGEN_DONT_VECTORIZE
#include "mc_common.h"
#include "macposts/_ext/mcdta.cpp"
typedef macposts::mcdta::Mcdta Api;
typedef pybind11::array_t<int> AI; typedef pybind11::array_t<double> AD;
static const int R[2][4] = { { 1, 2, 4, 0 }, { 1, 3, 5, 4 } }, N[2][5] = { { 1, 2, 3, 4, 0 }, { 1, 2, 5, 3, 4 } };
static int close (double a, double b) { return vp_and (a - b <= 1e-9, b - a <= 1e-9); }
extern "C" int vp_main ()
{
  int what = vp_choose ("what", 5), th = 0;
  Spec2 s; s.unit = 2;
  Api *d = new Api ();
  vp_assert (d->initialize (put2 (s)) == 0, "initialise");
  auto rid = [&] (int k) { for (auto &x : d->m_ID_path_mapping) if (x.second->m_link_vec.size () == (size_t) (3 + k)) return (int) x.first; return -1; };
  vp_assert (rid (0) >= 0 && rid (1) >= 0 && rid (0) != rid (1) && d->m_ID_path_mapping.size () == 2, "routes-have-ids");
  auto *br = dynamic_cast<MNM_Routing_Biclass_Hybrid *> (d->m_mcdta->m_routing);
  if (what == 2 || what == 3)
    {
      try { d->register_paths (AI{ rid (0), 77 }); } catch (const std::runtime_error &) { th = 1; }
      vp_assert (th == 1, "unknown-routes-are-rejected"); vp_reach ("unknown-path");
      int list = vp_choose ("list", 4); // route 0, route 1, both, none
      d->register_paths (list == 3 ? AI (size_t (0)) : list == 2 ? AI{ rid (1), rid (0) } : AI{ rid (list) });
      int a = 1 + vp_choose ("link", 5), b = 1 + vp_choose ("link", 5);
      int in[2], id[2] = { a, b }, all = 1, n = a == b ? 1 : 2;
      AI given = a == b ? AI{ a } : AI{ a, b };
      d->register_links (what == 2 ? given : AI{ 3, 2 });
      auto on = [&] (int k, int l) { for (int x : R[k]) if (x == l) return 1; return 0; };
      for (int i = 0; i < n; i++)
        {
          in[i] = 0;
          for (int k = 0; k < 2; k++) if (list == 2 || list == k) in[i] |= on (k, id[i]);
          all &= in[i];
        }
      Path_Table *pt = br->m_routing_fixed_car->m_path_table;
      MNM_Pathset *ps = pt->find (1)->second->find (4)->second;
      vp_assert (ps == br->m_routing_fixed_truck->m_path_table->find (1)->second->find (4)->second, "cars-and-trucks-share-the-routes");
      vp_rand_limit (2);
      if (what == 2)
        {
          pybind11::array_t<bool> c = d->are_registered_links_in_registered_paths ();
          vp_assert ((int) c.size () == n, "one-answer-per-link");
          for (int i = 0; i < n; i++) vp_assert (c[i] == (bool) in[i], "covered-exactly-if-some-registered-route-uses-the-link");
          AI m = d->get_registered_links_coverage_in_registered_paths ();
          int np = list == 3 ? 0 : list == 2 ? 2 : 1;
          vp_assert (m.sh.size () == 2 && m.sh[0] == np && m.sh[1] == n, "one-row-per-route");
          for (int j = 0; j < np; j++) for (int i = 0; i < n; i++) vp_assert (m[j * n + i] == on (list == 2 ? 1 - j : list, id[i]), "which-route-uses-which-link");
          AI g = d->generate_paths_to_cover_registered_links ();
          vp_assert ((int) g.size () == n + 1 && g[0] == !all, "reports-whether-routes-were-added");
          for (int i = 0; i < n; i++) vp_assert (g[i + 1] == 1, "every-link-is-covered-afterwards");
          vp_reach (all ? "covered" : "generated");
          if (a == 1 || a == 4) vp_reach ("connector");
        }
      else
        {
          // both routes of the network are known already, so drop one of them first
          int drop = vp_choose ("drop", 3);
          if (drop < 2) for (size_t i = 0; i < ps->m_path_vec.size (); i++) if ((int) ps->m_path_vec[i]->m_path_ID == rid (drop)) { ps->m_path_vec.erase (ps->m_path_vec.begin () + i); break; }
          AI g = d->generate_paths_to_cover_links (given, 1 + vp_choose ("tries", 2));
          vp_assert ((int) g.size () == n, "one-count-per-link");
          int added[2] = { 0, 0 };
          for (MNM_Path *p : ps->m_path_vec) if (p != d->m_ID_path_mapping[rid (0)] && p != d->m_ID_path_mapping[rid (1)]) for (int i = 0; i < n; i++) added[i] += p->is_link_in (id[i]);
          for (int i = 0; i < n; i++)
            {
              int c = 0; for (MNM_Path *p : ps->m_path_vec) c += p->is_link_in (id[i]);
              vp_assert (c > 0, "every-given-link-is-on-a-route"); vp_assert (g[i] == added[i], "counts-the-new-routes-of-the-link");
            }
          vp_assert (ps->m_path_vec.size () <= 2, "no-route-twice");
          vp_reach ("given"); if (ps->m_path_vec.size () == 2 && drop < 2) vp_reach ("new-route");
        }
      for (MNM_Path *p : ps->m_path_vec)
        {
          size_t k = p->m_link_vec.size ();
          vp_assert (k >= 1 && p->m_node_vec.size () == k + 1 && p->m_node_vec.front () == 1 && p->m_node_vec.back () == 4, "routes-join-the-OD-pair");
          int bad = 0;
          for (size_t i = 0; i < k; i++) { MNM_Dlink *l = d->m_mcdta->m_link_factory->get_link (p->m_link_vec[i]); bad |= l->m_from_node->m_node_ID != p->m_node_vec[i] || l->m_to_node->m_node_ID != p->m_node_vec[i + 1]; }
          vp_assert (!bad, "routes-are-connected");
        }
      delete d;
      return 0;
    }
  d->install_cc ();
  int delay = vp_int ("delay", 0, 3), which = vp_choose ("congested", 2), cls = vp_choose ("truck", 2);
  const int E = what == 4 ? 60 : 8; d->m_mcdta->m_current_loading_interval = E;
  double toll[6][2];
  for (int id = 1; id <= 5; id++)
    {
      auto *l = dynamic_cast<MNM_Dlink_Multiclass *> (d->m_mcdta->m_link_factory->get_link (id));
      toll[id][0] = what == 4 && id < 4 ? vp_dy ("toll", 0, 64, 2) : id / 4.; toll[id][1] = id / 2.;
      l->m_toll_car = toll[id][0]; l->m_toll_truck = toll[id][1]; l->m_toll = 77;
      for (int k = 0; k < 2; k++) for (int v = 0; v < 2; v++)
        {
          CC (l, k)->add_increment (std::pair<TFlt, TFlt> (1 + v, 1));
          CC (l, k, true)->add_increment (std::pair<TFlt, TFlt> (1 + v + FF (l, k) + (v && id == 2 + which && k == cls ? delay : 0), 1));
        }
    }
  d->build_link_cost_map (what == 1);
  auto tt = [&] (int l, int k, int t) { return TT (d->m_mcdta->m_link_factory->get_link (l), k, (t < E ? t : E - 1) + 1, E); };
  double vot = br->m_routing_adaptive->m_vot * s.unit;
  for (int l = 1; l <= 5; l++) for (int t = 0; t < 8; t++) for (int k = 0; k < 2; k++)
    {
      auto &T = k ? d->m_link_tt_map_truck : d->m_link_tt_map; auto &C = k ? d->m_link_cost_map_truck : d->m_link_cost_map; auto &G = k ? d->m_link_congested_truck : d->m_link_congested_car;
      vp_assert (T[l][t] == tt (l, k, t), "link-times-by-entry-interval");
      vp_assert (close (C[l][t], vot * tt (l, k, t) + toll[l][k]), "link-cost-is-value-of-time-plus-toll-of-the-class");
      if (what == 1) vp_assert (G[l][t] == (tt (l, k, t) > FF (d->m_mcdta->m_link_factory->get_link (l), k)), "congested-if-slower-than-free-flow");
    }
  if (what == 1)
    {
      // a longer run of the same network: the maps cover all its intervals
      d->m_mcdta->m_current_loading_interval = E + 4;
      d->build_link_cost_map (true);
      for (int l = 1; l <= 5; l++) for (int t = 0; t < E + 4; t++) for (int k = 0; k < 2; k++)
        vp_assert ((k ? d->m_link_tt_map_truck : d->m_link_tt_map)[l][t] == TT (d->m_mcdta->m_link_factory->get_link (l), k, t + 1, E), "link-times-of-a-longer-run");
      vp_reach ("longer-run");
      delete d;
      return 0;
    }
  auto follow = [&] (int r, int k, int t0, double &cost) { int now = t0; cost = 0; for (int l : R[r]) if (l) { double x = tt (l, k, vp_conc (now)); cost += vot * x + toll[l][k]; int w = (int) std::ceil (x); now += w < 1 ? 1 : w; } return (double) (now - t0); };
  if (what == 4)
    {
      int q = vp_choose ("start", 2) ? 5 : 1, drop = vp_choose ("known", 2);
      MNM_Pathset *ps = br->m_routing_fixed_car->m_path_table->find (1)->second->find (4)->second;
      if (drop) for (size_t i = 0; i < ps->m_path_vec.size (); i++) if (ps->m_path_vec[i]->m_link_vec.size () == 4) { ps->m_path_vec.erase (ps->m_path_vec.begin () + i); break; }
      d->update_tdsp_tree (); if (drop) d->update_tdsp_tree ();
      AI r = d->get_lowest_cost_path (q, 1, 4);
      int n = r.sh[1], k = n == 4 ? 0 : 1;
      vp_assert (r.sh.size () == 2 && r.sh[0] == 4 && (n == 4 || n == 5), "four-rows");
      double c0, c1; follow (0, 0, q, c0); follow (1, 0, q, c1);
      double c = k ? c1 : c0, best = c0 < c1 ? c0 : c1;
      vp_assert (c <= best + 1e-9, "no-route-is-cheaper");
      vp_assert (r[0] == !(drop && k), "tells-whether-the-route-is-known");
      vp_assert (vp_and (r[n] <= c + 1e-9, r[n] > c - 1 - 1e-9), "cost-in-whole-units");
      for (int i = 0; i < n; i++) { vp_assert (r[2 * n + i] == N[k][i] && r[3 * n + i] == (i < n - 1 ? R[k][i] : -1), "nodes-and-links-of-the-route"); if (i) vp_assert (r[i] == -1 && r[n + i] == -1, "totals-in-the-first-column-only"); }
      vp_reach ("best");
      delete d;
      return 0;
    }
  d->register_paths (AI{ rid (1), rid (0) });
  int q = vp_choose ("start", 2) ? 2 : vp_int ("depart", E - 2, E);
  AD r, p;
  AI S{ 1, q }, L{ 1, 3, 5, 4 };
  try { r = cls ? d->get_registered_path_tt_truck (S) : d->get_registered_path_tt_car (S); th = 1; } catch (const std::runtime_error &) { th = 2; vp_reach ("rejected"); }
  vp_assert (th == (q < E ? 1 : 2), "departures-after-the-loading-are-rejected");
  th = 0;
  try { p = cls ? d->get_path_tt_truck (L, S) : d->get_path_tt_car (L, S); th = 1; } catch (const std::runtime_error &) { th = 2; }
  vp_assert (th == (q < E ? 1 : 2), "departures-after-the-loading-are-rejected");
  if (th == 1)
    {
      vp_assert (r.sh.size () == 2 && r.sh[0] == 2 && r.sh[1] == 2 && p.sh[0] == 2 && p.sh[1] == 2, "one-row-per-route");
      for (int t = 0; t < 2; t++)
        {
          double c, w = follow (1, cls, t ? q : 1, c) * s.unit;
          vp_assert (r[t] == w, "registered-route-time-in-seconds");
          vp_assert (p[t] == w, "route-time-in-seconds");
          vp_assert (close (p[2 + t], c), "route-cost");
          w = follow (0, cls, t ? q : 1, c) * s.unit;
          vp_assert (r[2 + t] == w, "registered-route-time-in-seconds");
        }
      vp_reach ("route-time");
    }
  delete d;
  return 0;
}
