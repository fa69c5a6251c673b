// vp-sources: core dta dta_gradient_utls due dso routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: free queued never-clears saturated critical map
// vp-bounds: system-optimum marginal costs: 4 loading intervals, one CTM link with any inflow per interval (multiples of 1/4 up to 2) and outflow, any congestion pattern, connectors free; congestion flags from curves with 0-3 intervals of delay
// vp-time: 300 1500
#include "due_common.h"
#include "dso.h"
extern "C" int vp_main ()
{
  const int n = 4;
  Spec s; s.routing = "Due"; s.total = n; s.due = DUE_CONF; s.alt = "PQ";
  MNM_Dso *dso = new MNM_Dso (put (s));
  dso->initialize ();
  MNM_Dta *dta = dso->m_base_dta;
  MNM_Link_Factory *lf = dta->m_link_factory;
  vp_assert (dso->get_disutility (vp_dy ("depart", 0, 16, 2), 2.5) == 2.5, "system-optimum-disutility-is-the-time");
  for (auto &l : lf->m_link_map) l.second->install_cumulative_curve ();
  int fft = (int) lf->get_link (2)->get_link_freeflow_tt_loading ();
  if (vp_choose ("case", 2))
    {
      int d = vp_choose ("delay", 4);
      double toll = vp_dy ("toll", 0, 64, 2);
      for (auto &l : lf->m_link_map)
        {
          int dl = l.first == 2 ? fft + d : (int) l.second->get_link_freeflow_tt_loading ();
          for (int i = 0; i < n; i++) { l.second->m_N_in->add_increment (std::pair<TFlt, TFlt> (i + 1, 1)); if (i >= dl) l.second->m_N_out->add_increment (std::pair<TFlt, TFlt> (i + 1, 1)); }
          if (l.first == 2) l.second->m_toll = toll;
        }
      dta->m_current_loading_interval = n;
      dso->build_link_cost_map (dta);
      for (auto &l : lf->m_link_map)
        for (int i = 0; i < n; i++)
          {
            double t = MNM_DTA_GRADIENT::get_travel_time (l.second, TFlt (i + 1), 5, n);
            vp_assert (dso->m_link_tt_map[l.first][i] == t, "link-time-of-the-interval");
            vp_assert (dso->m_link_cost_map[l.first][i] == t + (l.first == 2 ? toll : 0), "link-cost-is-time-value-plus-toll");
            vp_assert (dso->m_link_congested[l.first][i] == (t > l.second->get_link_freeflow_tt_loading ()), "congested-means-slower-than-free-flow");
          }
      vp_reach ("map");
      delete dso;
      return 0;
    }
  MNM_Dlink_Ctm *L = dynamic_cast<MNM_Dlink_Ctm *> (lf->get_link (2));
  vp_assert (L != nullptr, "link-model");
  double cap = std::floor (L->m_cell_array.front ()->m_flow_cap);
  vp_assert (cap == 1, "capacity");
  double in[n]; int cong[n]; bool crit[n];
  for (auto &l : lf->m_link_map)
    {
      bool *c = new bool[n]; dso->m_link_congested[l.first] = c;
      for (int i = 0; i < n; i++) { c[i] = false; dso->m_link_tt_map[l.first][i] = (int) l.second->get_link_freeflow_tt_loading (); dso->m_link_cost_map[l.first][i] = 77; }
    }
  for (int i = 0; i < n; i++)
    {
      in[i] = i < 3 ? vp_dy ("inflow", 0, 8, 2) : 0.25 * (3 + 2 * vp_choose ("full", 2));
      L->m_N_in->add_increment (std::pair<TFlt, TFlt> (i + 1, in[i]));
      cong[i] = vp_choose ("congested", 2);
      if (cong[i]) { dso->m_link_congested[2][i] = true; dso->m_link_tt_map[2][i] = fft + 1; }
    }
  int outp = vp_choose ("outflow", 3);
  double out[2 * n];
  for (int i = 0; i < n; i++) { out[i] = outp == 0 ? 0 : outp == 1 ? 1 : (i % 2 ? 1 : 0.5); L->m_N_out->add_increment (std::pair<TFlt, TFlt> (i + 1, out[i])); }
  for (int i = 0; i < n; i++) { int k = i + fft; crit[i] = k < n && out[k] == 1; }
  dso->get_link_marginal_cost (dta);
  for (int i = 0; i < n; i++)
    {
      int lift = n, end;
      for (int j = n - 1; j >= i; j--) if (vp_conc (in[j] < cap)) lift = j;
      if (lift > i && lift < n) vp_reach ("saturated");
      if (lift == n) end = 2 * n;
      else if (cong[lift] || crit[lift])
        {
          end = 2 * n;
          for (int k = n - 1; k > lift; k--) if (cong[k - 1] && !cong[k]) end = k;
          vp_reach (cong[lift] ? "queued" : "critical");
          if (end == 2 * n) vp_reach ("never-clears");
        }
      else { end = lift; vp_reach ("free"); }
      vp_assert (dso->m_queue_dissipated_time[2][i] == end, "queue-dissipation-time");
      vp_assert (dso->m_link_cost_map[2][i] == end - lift + fft, "marginal-cost-is-free-flow-plus-queue-time");
      vp_assert (dso->m_link_tt_map[2][i] == dso->m_link_cost_map[2][i], "cost-and-time-map-agree");
      vp_assert (dso->m_link_cost_map[1][i] == lf->get_link (1)->get_link_freeflow_tt_loading (), "connector-marginal-cost-is-free-flow");
      vp_obs_d ("mc", dso->m_link_cost_map[2][i]);
    }
  delete dso;
  return 0;
}
