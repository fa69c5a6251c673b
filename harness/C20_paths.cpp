// vp-sources: core dta routing statistics pre_routing io vms workzone emission gridlock_checker dta_gradient_utls
// vp-reach: route-time rejected covered generated connector longer-run unknown-path
// vp-bounds: the five-link network with two routes read from files; 2 vehicles per link with one delay arbitrary (0..3); departures from 0 to one past the loaded intervals; route lists of no, one or both routes, one or two registered links of all kinds (both connectors included)
// vp-time: 300 1200
// vp-flags: -DEIGEN_DONT_VECTORIZE
#include "dta_common.h"
#include "macposts/_ext/dta.cpp"
typedef macposts::dta::Dta Api;
typedef pybind11::array_t<int> AI; typedef pybind11::array_t<double> AD;
static const int R[2][4] = { { 1, 2, 4, 0 }, { 1, 3, 5, 4 } };
extern "C" int vp_main ()
{
  int what = vp_choose ("what", 3), th = 0;
  Spec s; s.routing = "Hybrid"; s.mid = "LQ"; s.unit = 2;
  Api *d = new Api ();
  vp_assert (d->initialize (put (s)) == 0, "initialise");
  auto rid = [&] (int k) { for (auto &x : d->m_ID_path_mapping) if (x.second->m_link_vec.size () == (size_t) (3 + k)) return (int) x.first; return -1; };
  vp_assert (rid (0) >= 0 && rid (1) >= 0 && rid (0) != rid (1) && d->m_ID_path_mapping.size () == 2, "routes-have-ids");
  if (what == 2)
    {
      try { d->register_paths (AI{ rid (0), 77 }); } catch (const std::runtime_error &) { th = 1; }
      vp_assert (th == 1, "unknown-routes-are-rejected"); vp_reach ("unknown-path");
      int list = vp_choose ("list", 4); // route 0, route 1, both, none
      d->register_paths (list == 3 ? AI (size_t (0)) : list == 2 ? AI{ rid (1), rid (0) } : AI{ rid (list) });
      int a = 1 + vp_choose ("link", 5), b = 1 + vp_choose ("link", 5);
      d->register_links (a == b ? AI{ a } : AI{ a, b });
      int in[2], id[2] = { a, b }, all = 1, n = a == b ? 1 : 2;
      for (int i = 0; i < n; i++)
        {
          in[i] = 0;
          for (int k = 0; k < 2; k++) if (list == 2 || list == k) for (int x : R[k]) in[i] |= x == id[i];
          all &= in[i];
        }
      pybind11::array_t<bool> c = d->are_registered_links_in_registered_paths ();
      vp_assert ((int) c.size () == n, "one-answer-per-link");
      for (int i = 0; i < n; i++) vp_assert (c[i] == (bool) in[i], "covered-exactly-if-some-registered-route-uses-the-link");
      Path_Table *pt = dynamic_cast<MNM_Routing_Hybrid *> (d->m_dta->m_routing)->m_routing_fixed->m_path_table;
      MNM_Pathset *ps = pt->find (1)->second->find (4)->second;
      vp_rand_limit (2);
      AI g = d->generate_paths_to_cover_registered_links ();
      vp_assert ((int) g.size () == n + 1 && g[0] == !all, "reports-whether-routes-were-added");
      for (int i = 0; i < n; i++) vp_assert (g[i + 1] == 1, "every-link-is-covered-afterwards");
      vp_reach (all ? "covered" : "generated");
      if (a == 1 || a == 4) vp_reach ("connector");
      for (MNM_Path *p : ps->m_path_vec)
        {
          size_t k = p->m_link_vec.size ();
          vp_assert (k >= 1 && p->m_node_vec.size () == k + 1 && p->m_node_vec.front () == 1 && p->m_node_vec.back () == 4, "routes-join-the-OD-pair");
          int bad = 0;
          for (size_t i = 0; i < k; i++) { MNM_Dlink *l = d->m_dta->m_link_factory->get_link (p->m_link_vec[i]); bad |= l->m_from_node->m_node_ID != p->m_node_vec[i] || l->m_to_node->m_node_ID != p->m_node_vec[i + 1]; }
          vp_assert (!bad, "routes-are-connected");
        }
      delete d;
      return 0;
    }
  d->install_cc ();
  int delay = vp_int ("delay", 0, 3), which = vp_choose ("congested", 2);
  const int E = 7; d->m_dta->m_current_loading_interval = E;
  for (int id = 1; id <= 5; id++)
    {
      MNM_Dlink *l = d->m_dta->m_link_factory->get_link (id); l->m_toll = id / 4.;
      int ff = (int) l->get_link_freeflow_tt_loading ();
      for (int k = 0; k < 2; k++)
        {
          l->m_N_in->add_increment (std::pair<TFlt, TFlt> (1 + k, 1));
          l->m_N_out->add_increment (std::pair<TFlt, TFlt> (1 + k + ff + (k && id == 2 + which ? delay : 0), 1));
        }
    }
  d->build_link_cost_map (what == 1);
  auto tt = [&] (int l, int t) { return MNM_DTA_GRADIENT::get_travel_time (d->m_dta->m_link_factory->get_link (l), TFlt ((t < E ? t : E - 1) + 1), s.unit, E); };
  double vot = dynamic_cast<MNM_Routing_Hybrid *> (d->m_dta->m_routing)->m_routing_adaptive->m_vot * s.unit;
  for (int l = 1; l <= 5; l++) for (int t = 0; t < E; t++)
    {
      vp_assert (d->m_link_tt_map[l][t] == tt (l, t), "link-times-by-entry-interval");
      double c = vot * tt (l, t) + l / 4.;
      vp_assert (vp_and (d->m_link_cost_map[l][t] - c <= 1e-9, c - d->m_link_cost_map[l][t] <= 1e-9), "link-cost-is-value-of-time-plus-toll");
      if (what == 1) vp_assert (d->m_link_congested[l][t] == (tt (l, t) > d->m_dta->m_link_factory->get_link (l)->get_link_freeflow_tt_loading ()), "congested-if-slower-than-free-flow");
    }
  if (what == 1)
    {
      // a longer run of the same network: the maps cover all its intervals
      d->m_dta->m_current_loading_interval = E + 4;
      d->build_link_cost_map (true);
      for (int l = 1; l <= 5; l++)
        for (int t = 0; t < E + 4; t++)
          vp_assert (d->m_link_tt_map[l][t] == MNM_DTA_GRADIENT::get_travel_time (d->m_dta->m_link_factory->get_link (l), TFlt (t + 1), s.unit, E + 4), "link-times-of-a-longer-run");
      vp_reach ("longer-run");
      delete d;
      return 0;
    }
  d->register_paths (AI{ rid (1), rid (0) });
  int q = vp_choose ("start", 2) ? 2 : vp_int ("depart", E - 2, E);
  auto follow = [&] (int k, int t0, double &cost) { int now = t0; cost = 0; for (int l : R[k]) if (l) { double x = tt (l, vp_conc (now)); cost += vot * x + l / 4.; int w = (int) std::ceil (x); now += w < 1 ? 1 : w; } return (double) (now - t0); };
  AD r, p;
  try { r = d->get_registered_path_tt (AI{ 1, q }); th = 1; } catch (const std::runtime_error &) { th = 2; vp_reach ("rejected"); }
  vp_assert (th == (q < E ? 1 : 2), "departures-after-the-loading-are-rejected");
  th = 0;
  try { p = d->get_path_tt (AI{ 1, 3, 5, 4 }, AI{ 1, q }); th = 1; } catch (const std::runtime_error &) { th = 2; }
  vp_assert (th == (q < E ? 1 : 2), "departures-after-the-loading-are-rejected");
  if (th == 1)
    {
      vp_assert (r.sh.size () == 2 && r.sh[0] == 2 && r.sh[1] == 2 && p.sh[0] == 2 && p.sh[1] == 2, "one-row-per-route");
      for (int t = 0; t < 2; t++)
        {
          double c, w = follow (1, t ? q : 1, c) * s.unit;
          vp_assert (r[t] == w, "registered-route-time-in-seconds");
          vp_assert (p[t] == w, "route-time-in-seconds");
          vp_assert (vp_and (p[2 + t] - c <= 1e-9, c - p[2 + t] <= 1e-9), "route-cost");
          w = follow (0, t ? q : 1, c) * s.unit;
          vp_assert (r[2 + t] == w, "registered-route-time-in-seconds");
        }
      vp_reach ("route-time");
    }
  delete d;
  return 0;
}
