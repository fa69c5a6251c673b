// vp-sources: core dta_gradient_utls
// vp-reach: queued freeflow emptied stuck after-last not-started
// vp-bounds: 3 vehicles (thorough: 4) entering at arbitrary integer times (gaps 0..3) and leaving in order at arbitrary later times (or never before the end of loading), flow scalar 1 or 2, free-flow time 1-3 intervals; query times on a grid (thorough: every multiple of 1/2)
// vp-time: 300 1800
#include "vp.h"
#include "dta_gradient_utls.h"
#include <stdexcept>
extern "C" int vp_main ()
{
  int n = vp_tier () ? 4 : 3;
  int ff = 1 + vp_choose ("fftt", vp_tier () ? 3 : 2);
  double sc = 1 + vp_choose ("scalar", 2);
  MNM_Dlink_Pq link (7, 1, 1, 1, 10. * ff, 10, 1, sc);
  vp_assert (link.get_link_freeflow_tt_loading () == ff, "freeflow-intervals");
  link.install_cumulative_curve ();
  int out = vp_choose ("left", n + 1); // how many have left by the end
  int a[4], d[4], t = 1;
  int END = 30;
  for (int i = 0; i < n; i++) { if (i) t += vp_int ("gap", 0, 3); else t += vp_int ("first", 0, 2); a[i] = t; link.m_N_in->add_increment (std::pair<TFlt, TFlt> (t, 1 / sc)); }
  int prev = 0;
  for (int i = 0; i < out; i++)
    {
      int lo = a[i] + ff > prev ? a[i] + ff : prev;
      d[i] = lo + vp_int ("delay", 0, 3); prev = d[i];
      link.m_N_out->add_increment (std::pair<TFlt, TFlt> (d[i], 1 / sc));
    }
  int k = vp_choose ("query", vp_tier () ? 60 : 14) * (vp_tier () ? 1 : 3);
  double q = 0.5 * k;
  double tt = MNM_DTA_GRADIENT::get_travel_time (&link, q, 5, END);
  double lv = link.m_last_valid_time;
  // reference: latest time by which everyone who entered has left before the end
  if (out == n) { vp_reach ("emptied"); vp_assert (lv == END, "emptied-link-valid-to-the-end"); }
  else if (out == 0) vp_assert (lv == 0, "nobody-left-nothing-valid");
  else
    {
      vp_reach ("stuck");
      int in_lv = 0, in_next = 0;
      for (int i = 0; i < n; i++) { in_lv += a[i] <= lv; in_next += a[i] <= lv + 1; }
      vp_assert (in_lv <= out, "all-entered-by-last-valid-time-have-left");
      vp_assert (in_next > out, "last-valid-time-is-the-latest");
    }
  vp_assert (tt >= ff, "never-below-free-flow");
  double s = q <= lv ? q : lv;
  if (q > lv) vp_reach ("after-last");
  int c = 0;
  for (int i = 0; i < n; i++) c += a[i] <= s;
  if (c == 0 || lv <= 0) { vp_reach ("not-started"); vp_assert (tt == ff, "no-traffic-means-free-flow"); }
  else
    {
      // c-th vehicle: leaves at d[c-1]
      vp_assert (c <= out, "query-stays-in-the-valid-part");
      if (c > out) return 0;
      double truth = d[c - 1] - s > ff ? d[c - 1] - s : ff;
      vp_assert (tt <= truth, "never-longer-than-the-vehicle-needed");
      bool distinct = c == out || d[c] != d[c - 1]; // the c-th departure is a level of the curve
      if (distinct) { vp_assert (tt == truth, "exit-minus-entry"); vp_reach (tt > ff ? "queued" : "freeflow"); }
    }
  vp_obs_d ("tt", tt);
  return 0;
}
