// vp-sources: core dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: released rounded queued arrived fixed adaptive hybrid loading total late
// vp-bounds: a network of 5 nodes and 5 links with two routes, read from files; every link model on the routes, both junction models, fixed, adaptive and hybrid routing; 2 assignment intervals of 2 loading intervals, demand 0, 1 or 2 vehicles in the first and any multiple of 1/4 up to 2 in the second, flow scalar 1 or 2, first assignment interval 0 or 1, run to the end (or for a given number of intervals); the first 4 random draws arbitrary, then a fixed fair sequence
// vp-time: 300 1800
#include "dta_common.h"
extern "C" int vp_main ()
{
  static const char *MT[] = { "CTM", "LQ", "PQ", "LTM" }, *RT[] = { "Fixed", "Adaptive", "Hybrid" };
  static const double DM[] = { 0, 1, 2 };
  Spec s;
  int m = vp_choose ("model", 4), r = vp_choose ("routing", 3);
  s.mid = MT[m]; s.alt = MT[(m + r) % 4]; s.routing = RT[r]; s.node2 = m == 2 ? "GRJ" : "FWJ";
  s.scalar = 1 + vp_choose ("scalar", 2);
  s.dem[0] = DM[vp_choose ("demand", 3)] / s.scalar; s.dem[1] = vp_dy ("demand2", 0, 8, 1 + s.scalar);
  s.start = vp_choose ("start", 2);
  if (s.start) vp_reach ("late");
  int whole = vp_choose ("whole", 3); // 0 step by step, 1 loading () to the end, 2 loading () with a fixed number of intervals
  if (whole == 2) s.total = 1 + 4 * vp_choose ("total", 2);
  vp_reach (r == 0 ? "fixed" : r == 1 ? "adaptive" : "hybrid");
  MNM_Dta dta (put (s));
  dta.build_from_files ();
  dta.hook_up_node_and_link ();
  vp_assert (dta.is_ok (), "a-consistent-network-is-accepted");
  MNM_Link_Factory *lf = dta.m_link_factory; MNM_Veh_Factory *vf = dta.m_veh_factory;
  MNM_Dlink *L[6]; for (int i = 1; i < 6; i++) { L[i] = lf->get_link (i); L[i]->install_cumulative_curve (); }
  vp_rand_limit (vp_tier () ? 7 : 4);
  dta.pre_loading ();
  MNM_Origin *o = dta.m_od_factory->get_origin (7);
  auto at = [&] (MNM_Cumulative_Curve *c, int t) { return (double) c->get_result (TFlt (t)); };
  auto check = [&] (int t) {
    int enroute = vf->m_enroute, on[6] = { 0 }, q = (int) o->m_origin_node->m_in_veh_queue.size (), known = 0;
    vp_assert (vf->m_num_veh == vf->m_finished + enroute && (int) vf->m_veh_map.size () == enroute, "created-is-finished-plus-en-route");
    for (auto &p : vf->m_veh_map)
      {
        MNM_Dlink *c = p.second->get_current_link ();
        if (c) { on[(int) c->m_link_ID]++; known++; }
      }
    vp_assert (known + q == enroute, "everyone-en-route-is-on-a-link-or-waiting-at-the-origin");
    double sc = s.scalar;
    for (int i = 1; i < 6; i++)
      {
        vp_assert (L[i]->get_link_flow () * sc == on[i], "link-volume-is-the-vehicles-on-it");
        vp_assert ((at (L[i]->m_N_in, t + 1) - at (L[i]->m_N_out, t + 1)) * sc == on[i], "curves-differ-by-the-vehicles-on-the-link");
        if (on[i] > 1) vp_reach ("queued");
      }
    vp_assert (at (L[1]->m_N_in, t + 1) * sc + q == (double) vf->m_num_veh, "released-vehicles-enter-or-wait");
    vp_assert (at (L[1]->m_N_out, t + 1) == at (L[2]->m_N_in, t + 1) + at (L[3]->m_N_in, t + 1), "diverge-conserves-flow");
    vp_assert (at (L[3]->m_N_out, t + 1) == at (L[5]->m_N_in, t + 1), "series-conserves-flow");
    vp_assert (at (L[2]->m_N_out, t + 1) + at (L[5]->m_N_out, t + 1) == at (L[4]->m_N_in, t + 1), "merge-conserves-flow");
    vp_assert (at (L[4]->m_N_out, t + 1) * sc == (double) vf->m_finished, "arrivals-leave-through-the-last-link");
  };
  // bounds of what has been released after assignment interval a has been handled
  double lo = 0, hi = 0; int n = 0;
  auto release = [&] (int a) { double e = s.dem[a] * s.scalar; lo = lo + e; hi = hi + e; };
  auto bounds = [&] (const char *id) { vp_assert (vp_and (vf->m_num_veh < hi + 1, vf->m_num_veh > lo - 1), id); };
  if (whole == 0)
    {
      int a = s.start; bool more = true;
      while (more)
        {
          vp_assert (n < 60, "everyone-arrives-in-the-end");
          if (n % s.frq == 0 && a < s.max) release (a);
          dta.load_once (false, n, a);
          bounds ("released-is-the-demand-so-far");
          vp_assert (dta.m_current_loading_interval == n + 1, "clock");
          vp_assert ((int) dta.m_enroute_veh_num.size () == n + 1 && dta.m_enroute_veh_num.back () == vf->m_enroute, "en-route-record");
          vp_assert ((int) dta.m_queue_veh_num.size () == n + 1, "queue-record");
          check (n);
          if (++n % s.frq == 0) a++;
          more = !dta.finished_loading (n) || a < s.max;
        }
    }
  else
    {
      for (int a = s.start; a < s.max; a++) release (a);
      n = dta.loading (false);
      vp_reach (whole == 1 ? "loading" : "total");
      int least = (s.max - s.start) * s.frq;
      vp_assert (n >= least && n == dta.m_current_loading_interval, "all-assignment-intervals-are-loaded");
      if (s.total > 0) vp_assert (n == (s.total > least ? s.total : least), "the-requested-number-of-intervals-is-loaded");
      check (n - 1);
    }
  bounds ("released-is-the-rounded-demand");
  if (vp_conc (vp_not (vf->m_num_veh == hi))) vp_reach ("rounded");
  if (vf->m_num_veh > 0) vp_reach ("released");
  if (s.total <= 0) { vp_assert (vf->m_finished == vf->m_num_veh && vf->m_enroute == 0 && vf->m_veh_map.empty (), "everyone-has-arrived-when-loading-ends"); if (vf->m_finished > 1) vp_reach ("arrived"); }
  vp_obs_i ("n", n); vp_obs_i ("veh", vf->m_num_veh); vp_obs_d ("time", vf->m_total_time);
  return 0;
}
