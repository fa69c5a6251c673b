// vp-sources: core dta_gradient_utls
// vp-reach: beyond inside
// vp-bounds: route travel time and cost over 1-3 links with arbitrary time-dependent link times (multiples of 1/2 in [1/2, 4]) and costs (multiples of 1/4 up to 64), 4 intervals, every integer departure 0..5; inflow/outflow and average slopes over arbitrary integer windows of a curve with 3 arbitrary increments; get_travel_time_robust over 4 intervals with 2 or 4 samples
// vp-time: 240 1200
#include "vp.h"
#include "dta_gradient_utls.h"
#include <cmath>
#include <stdexcept>
extern "C" int vp_main ()
{
  int part = vp_choose ("part", 3);
  if (part == 0)
    {
      int n = 1 + vp_choose ("n", 3), M = 4;
      double tt[3][4], cc[3][4];
      std::unordered_map<TInt, TFlt *> tm, cm;
      MNM_Path p;
      for (int i = 0; i < n; i++)
        {
          for (int t = 0; t < M; t++) { tt[i][t] = vp_dy ("tt", 1, 8, 1); cc[i][t] = vp_dy ("c", 0, 256, 2); }
          tm[20 + i] = tt[i]; cm[20 + i] = cc[i]; p.m_link_vec.push_back (20 + i);
        }
      int start = vp_choose ("start", 6);
      double got = MNM_DTA_GRADIENT::get_path_travel_time (&p, start, tm, M);
      double cost = MNM_DTA_GRADIENT::get_path_travel_cost (&p, start, tm, cm, M);
      int now = start;
      double ec = 0;
      for (int i = 0; i < n; i++)
        {
          int k = now < M ? now : M - 1;
          vp_reach (now < M ? "inside" : "beyond");
          ec += cc[i][k];
          int s = (int) std::ceil (tt[i][k]);
          now += vp_conc (s < 1 ? 1 : s);
        }
      vp_assert (got == now - start, "route-time-follows-arrival-intervals");
      vp_assert (cost == ec, "route-cost-follows-arrival-intervals");
      int th = 0;
      try { MNM_DTA_GRADIENT::get_path_travel_time (nullptr, 0, tm, M); } catch (const std::runtime_error &) { th++; }
      try { MNM_DTA_GRADIENT::get_path_travel_cost (nullptr, 0, tm, cm, M); } catch (const std::runtime_error &) { th++; }
      vp_assert (th == 2, "null-route-is-an-error");
      return 0;
    }
  MNM_Dlink_Pq link (7, 1, 1, 1, 20, 10, 1, 1);
  if (part == 1)
    {
      int th = 0;
      try { MNM_DTA_GRADIENT::get_link_inflow (&link, 0, 1); } catch (const std::runtime_error &) { th++; }
      try { MNM_DTA_GRADIENT::get_link_outflow (&link, 0, 1); } catch (const std::runtime_error &) { th++; }
      try { MNM_DTA_GRADIENT::get_travel_time (&link, 1., 5, 10); } catch (const std::runtime_error &) { th++; }
      try { MNM_DTA_GRADIENT::get_link_inflow (nullptr, 0, 1); } catch (const std::runtime_error &) { th++; }
      vp_assert (th == 4, "missing-curve-is-an-error");
      link.install_cumulative_curve ();
      int a[3], b[3], t = 1, u = 1;
      double fa[3], fb[3];
      for (int i = 0; i < 3; i++)
        {
          t += vp_int ("gap", 0, 2); a[i] = t; fa[i] = vp_dy ("fa", 0, 64, 2); link.m_N_in->add_increment (std::pair<TFlt, TFlt> (t, fa[i]));
        }
      for (int i = 0; i < 2; i++) { u += vp_int ("gap", 1, 2); b[i] = u; fb[i] = vp_dy ("fb", 0, 64, 2); link.m_N_out->add_increment (std::pair<TFlt, TFlt> (u, fb[i])); }
      int s = vp_choose ("s", 5), e = s + 1 + vp_choose ("len", 4);
      double in = 0, out = 0;
      for (int i = 0; i < 3; i++) if (a[i] > s && a[i] <= e) in += fa[i];
      for (int i = 0; i < 2; i++) if (b[i] > s && b[i] <= e) out += fb[i];
      vp_assert (MNM_DTA_GRADIENT::get_link_inflow (&link, TInt (s), TInt (e)) == in, "inflow-is-what-entered-in-the-window");
      vp_assert (MNM_DTA_GRADIENT::get_link_inflow (&link, TFlt (s), TFlt (e)) == in, "inflow-float-window");
      vp_assert (MNM_DTA_GRADIENT::get_link_outflow (&link, TInt (s), TInt (e)) == out, "outflow-is-what-left-in-the-window");
      double sl = MNM_DTA_GRADIENT::get_arrival_cc_slope (&link, s, e) * (e - s), so = MNM_DTA_GRADIENT::get_departure_cc_slope (&link, s, e) * (e - s);
      vp_assert (sl - in < 1e-9 && in - sl < 1e-9, "arrival-slope-is-mean-inflow");
      vp_assert (so - out < 1e-9 && out - so < 1e-9, "departure-slope-is-mean-outflow");
      return 0;
    }
  link.install_cumulative_curve ();
  int a = 1 + vp_int ("a", 0, 3), b = a + vp_int ("b", 1, 3);
  int da = a + 2 + vp_int ("da", 0, 3), db = da + 1 + vp_int ("db", 0, 3);
  vp_assume (db >= b + 2);
  link.m_N_in->add_increment (std::pair<TFlt, TFlt> (a, 1)); link.m_N_in->add_increment (std::pair<TFlt, TFlt> (b, 1));
  link.m_N_out->add_increment (std::pair<TFlt, TFlt> (da, 1)); link.m_N_out->add_increment (std::pair<TFlt, TFlt> (db, 1));
  int k = vp_choose ("trials", 3); // 2, 4, 8 -> capped at the number of intervals
  int trials = 2 << k, use = trials > 4 ? 4 : trials;
  int s0 = 1 + vp_choose ("start", 4);
  double r = MNM_DTA_GRADIENT::get_travel_time_robust (&link, s0, s0 + 4, 5, 30, trials), e = 0;
  for (int i = 0; i < use; i++) e += MNM_DTA_GRADIENT::get_travel_time (&link, s0 + i * (4. / use), 5, 30);
  vp_assert (r * use == e, "averaged-time-is-the-mean-of-its-samples");
  return 0;
}
