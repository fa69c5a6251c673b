// vp-sources: core dta routing statistics pre_routing io vms workzone emission gridlock_checker dta_gradient_utls
// vp-reach: inflow rejected curve time capped infinite registered duplicate unknown
// vp-bounds: the five-link network read from files; two registered links (any order) with 3 vehicles each, one entering and one leaving at arbitrary times (0..2 later than the others); one or two queried intervals at arbitrary times from 0 to one past the loaded ones, window lengths 0..4
// vp-time: 300 1200
// vp-flags: -DEIGEN_DONT_VECTORIZE
#include "dta_common.h"
#include "macposts/_ext/dta.cpp"
#include <cmath>
typedef macposts::dta::Dta Api;
typedef pybind11::array_t<int> AI; typedef pybind11::array_t<double> AD;
extern "C" int vp_main ()
{
  int what = vp_choose ("what", 5), th = 0;
  Spec s; s.routing = "Hybrid"; s.unit = what > 2 ? 2 : 5; s.mid = "LQ";
  Api *d = new Api ();
  vp_assert (d->initialize (put (s)) == 0 && d->check_input_files (), "initialise");
  AI all = d->get_all_links ();
  vp_assert (all.size () == 5 && all[0] == 1 && all[1] == 2 && all[2] == 3 && all[3] == 4 && all[4] == 5, "all-links-ascending");
  int order = what < 2 ? vp_choose ("order", 2) : 0, id[2] = { order ? 5 : 2, order ? 2 : 5 };
  d->register_links (AI{ id[0], id[1] });
  AI reg = d->get_registered_links ();
  vp_assert (reg.size () == 2 && reg[0] == id[0] && reg[1] == id[1], "registered-links-in-order");
  vp_reach ("registered");
  if (what == 0)
    {
      int bad = vp_choose ("bad", 4);
      try { if (bad == 0) d->register_links (AI{ 2, 3, 2 }); else if (bad == 1) d->register_links (AI{ 2, 9 }); else if (bad == 2) d->register_links (AI (std::vector<long>{ 1, 1 })); else { d->register_links (AI{ 3 }); th = 1; } }
      catch (const std::runtime_error &) { th = 2; }
      vp_reach (bad == 0 ? "duplicate" : "unknown");
      vp_assert (th == (bad == 3 ? 1 : 2), "bad-lists-are-rejected");
      if (bad == 3) { AI r = d->get_registered_links (); vp_assert (r.size () == 1 && r[0] == 3, "registering-again-replaces"); }
      delete d;
      return 0;
    }
  d->install_cc ();
  MNM_Dlink *L[2]; for (int i = 0; i < 2; i++) L[i] = d->m_dta->m_link_factory->get_link (id[i]);
  const int T = 9; d->m_dta->m_current_loading_interval = T;
  vp_assert (d->get_cur_loading_interval () == T, "loaded-intervals");
  int a[2][3], b[2][3];
  for (int i = 0; i < 2; i++)
    {
      int t = 1, ff = (int) L[i]->get_link_freeflow_tt_loading (), last = 0, sym = i == 0 && what != 4;
      for (int k = 0; k < 3; k++)
        {
          t += sym && k == 1 ? vp_int ("gap", 0, 2) : i + k / 2; a[i][k] = t; L[i]->m_N_in->add_increment (std::pair<TFlt, TFlt> (t, 1));
          b[i][k] = std::max (t + ff, last) + (sym && k == 2 ? vp_int ("delay", 0, 2) : 1); last = b[i][k];
        }
      for (int k = 0; k < 3; k++) if (b[i][k] <= T + 3) L[i]->m_N_out->add_increment (std::pair<TFlt, TFlt> (b[i][k], 1));
      if (last > T) d->m_dta->m_current_loading_interval = T + 3;
    }
  const int E = d->m_dta->m_current_loading_interval;
  double u = s.unit;
  if (what == 1)
    {
      int s0 = vp_int ("start", 0, E), e0 = s0 + vp_int ("len", 0, 4), ok = e0 > s0 && s0 < E && e0 <= E;
      AI S{ s0, 3 }, F{ e0, 5 };
      try { AD r = d->get_link_inflow (S, F); th = 1;
        vp_assert (ok, "windows-outside-the-loading-are-rejected");
        vp_assert (r.sh.size () == 2 && r.sh[0] == 2 && r.sh[1] == 2, "one-row-per-link");
        for (int i = 0; i < 2; i++) for (int t = 0; t < 2; t++)
          {
            int n = 0, lo = t ? 3 : s0, hi = t ? 5 : e0;
            for (int k = 0; k < 3; k++) n += a[i][k] > lo && a[i][k] <= hi;
            vp_assert (r[2 * i + t] == n, "inflow-is-the-vehicles-entering-in-the-window");
          }
        vp_reach ("inflow"); }
      catch (const std::runtime_error &) { th = 2; vp_reach ("rejected"); }
      vp_assert (th == (ok ? 1 : 2), "valid-windows-are-answered");
      int n = vp_choose ("shape", 2); th = 0;
      try { d->get_link_inflow (n ? AI{ 0 } : AI (std::vector<long>{ 1, 2 }), F); } catch (const std::runtime_error &) { th = 1; }
      vp_assert (th == 1, "mismatched-lists-are-rejected");
    }
  else if (what == 2)
    {
      for (int i = 0; i < 2; i++)
        {
          AD r = d->get_link_in_cc (id[i]), o = d->get_link_out_cc (id[i]);
          auto same = [&] (AD &x, MNM_Cumulative_Curve *c) {
            vp_assert (x.sh.size () == 2 && x.sh[1] == 2 && x.sh[0] == (long) c->m_recorder.size (), "one-row-per-point");
            for (size_t k = 0; k < c->m_recorder.size (); k++) vp_assert (vp_and (x[2 * k] == c->m_recorder[k].first, x[2 * k + 1] == c->m_recorder[k].second), "curve-points");
          };
          same (r, L[i]->m_N_in); same (o, L[i]->m_N_out);
          vp_reach ("curve");
        }
      d->m_dta->m_link_factory->get_link (3)->m_N_in = nullptr;
      try { d->get_link_in_cc (3); } catch (const std::runtime_error &) { th = 1; }
      vp_assert (th == 1, "no-curve-is-an-error");
    }
  else
    {
      int robust = what == 4, s0 = vp_int ("start", 0, E), mode = vp_choose ("mode", 3), inf = mode == 2, scale = mode > 0;
      if (scale) for (int i = 0; i < 2; i++) { L[i]->m_ffs = L[i]->m_ffs * 64; }
      int e0 = s0 + (robust ? vp_int ("len", 0, 3) : 1), ok = s0 < E && (!robust || (e0 > s0 && e0 <= E));
      AD r;
      try { r = robust ? d->get_link_tt_robust (AD{ (double) s0, 2. }, AD{ (double) e0, 4. }, 3, inf) : d->get_link_tt (AI{ s0, 2 }, inf); th = 1; }
      catch (const std::runtime_error &) { th = 2; vp_reach ("rejected"); }
      vp_assert (th == (ok ? 1 : 2), "start-must-have-been-loaded");
      if (th == 1)
        {
          vp_assert (r.sh.size () == 2 && r.sh[0] == 2 && r.sh[1] == 2, "one-row-per-link");
          AD fd = d->get_link_tt_FD (AI{ s0, 2 });
          for (int i = 0; i < 2; i++) for (int t = 0; t < 2; t++)
            {
              double q = (t ? 2 : s0) + 1, e = (t ? 4 : e0) + 1;
              double w = u * (robust ? MNM_DTA_GRADIENT::get_travel_time_robust (L[i], q, e, u, E, 3) : MNM_DTA_GRADIENT::get_travel_time (L[i], q, u, E));
              double cap = 20 * L[i]->m_length / L[i]->m_ffs;
              vp_assert (fd[2 * i + t] == MNM_DTA_GRADIENT::get_travel_time_from_FD (L[i], t ? 2 : s0, u) * u, "fundamental-diagram-time-in-seconds");
              if (w > cap) { vp_reach (inf ? "infinite" : "capped"); vp_assert (inf ? std::isinf (vp_concd (r[2 * i + t])) : r[2 * i + t] == cap, "excessive-times-are-capped"); }
              else { vp_reach ("time"); vp_assert (r[2 * i + t] == w, "travel-time-in-seconds"); }
            }
        }
    }
  delete d;
  return 0;
}
