// vp-sources: core
// vp-reach: flat exact between beyond early merged up
// vp-bounds: cumulative curves built from (0,0) by 3 increments (thorough: 4) with arbitrary integer times (gaps 0..3, also going back in time) and arbitrary non-negative flows (multiples of 1/4 up to 64); queries at every time (multiples of 1/4 up to 20) and every count (multiples of 1/8 up to 300)
// vp-time: 240 1800
#include "vp.h"
#include "dlink.h"
#include <stdexcept>
extern "C" int vp_main ()
{
  int n = vp_tier () ? 4 : 3;
  MNM_Cumulative_Curve cc;
  int T[6], t = 0, m = 0;
  double F[6], tot = 0;
  bool installed = vp_choose ("installed", 2);
  if (installed) { cc.add_record (std::pair<TFlt, TFlt> (0, 0)); }
  else
    {
      vp_assert (cc.get_result (vp_dy ("t0", 0, 80, 2)) == 0, "empty-curve-counts-nothing");
      vp_assert (cc.get_time (vp_dy ("r0", 0, 80, 2)) == -1, "empty-curve-has-no-time");
      vp_assert (cc.get_approximated_result (1.5) == 0, "empty-curve-interpolates-to-nothing");
    }
  for (int i = 0; i < n; i++)
    {
      int dt = vp_int ("dt", i == 0 ? (installed ? 0 : 1) : -1, 3);
      double f = vp_dy ("flow", 0, 256, 2);
      bool th = false;
      int nt = t + dt;
      if (nt < 0) { nt = 0; }
      try { cc.add_increment (std::pair<TFlt, TFlt> (nt, f)); } catch (const std::runtime_error &) { th = true; }
      if (th) { vp_reach ("early"); vp_assert (nt < t, "only-earlier-times-are-rejected"); continue; }
      vp_assert (nt >= t, "earlier-times-are-rejected");
      if (m > 0 && nt == t) vp_reach ("merged");
      T[m] = nt; F[m] = f; m++; t = nt; tot += f;
    }
  int what = vp_choose ("query", 4);
  int first = installed ? 0 : T[0];
  double f0 = 0; // count at the first record
  for (int i = 0; i < m; i++) if (T[i] == first) f0 += F[i];
  auto N = [&] (double x) { double s = 0; for (int i = 0; i < m; i++) if (T[i] <= x) s += F[i]; return s; };
  if (what == 0)
    {
      double q = vp_dy ("q", 0, 80, 2);
      double r = cc.get_result (q);
      double e = q <= first ? f0 : N (q);
      vp_assert (r == e, "count-is-everything-recorded-so-far");
      double q2 = vp_dy ("q2", 0, 80, 2);
      if (q <= q2) { vp_assert (r <= cc.get_result (q2), "count-never-decreases"); }
      if (q > t) { vp_reach ("beyond"); vp_assert (r == tot, "count-after-the-end-is-the-total"); }
      vp_obs_d ("r", r);
    }
  else if (what == 1)
    {
      for (int i = 0; i < m; i++) T[i] = vp_conc (T[i]);
      double q = vp_concd (vp_dy ("q", 0, 28, 1));
      double r = cc.get_approximated_result (q);
      vp_assert (r >= (q <= first ? f0 : N (q)) - 1e-9, "interpolated-count-at-least-the-stepwise-count");
      vp_assert (r <= tot + 1e-9, "interpolated-count-at-most-the-total");
      int a = first, b = -1;
      for (int i = 0; i < m; i++) { if (T[i] <= q && T[i] > a) a = T[i]; if (T[i] > q && (b < 0 || T[i] < b)) b = T[i]; }
      double e = q <= first ? f0 : b < 0 ? N (a) : N (a) + (N (b) - N (a)) * ((q - a) / (b - a));
      vp_assert (r - e < 1e-9 && e - r < 1e-9, "interpolation-is-linear-between-records");
      // on recorded times it equals the stepwise count
      double rr = cc.get_approximated_result (t);
      vp_assert (rr <= tot + 1e-9 && rr >= tot - 1e-9, "interpolation-meets-last-record");
    }
  else
    {
      double c = vp_dy ("count", 1, 2400, 3);
      bool up = what == 3;
      double r = cc.get_time (c, up);
      if (c <= f0) vp_assert (r == -1, "count-already-there-at-start-has-no-time");
      else if (c > tot) { vp_assert (r == -1, "count-never-reached-has-no-time"); }
      else if (up)
        {
          vp_reach ("up");
          vp_assert (N (r) >= c, "time-rounded-up-reaches-the-count");
          vp_assert (N (r - 1) < c, "time-rounded-up-is-the-first");
        }
      else
        {
          double at = N (r);
          if (at == c) vp_reach ("exact"); else vp_reach ("between");
          vp_assert (at <= c, "time-rounded-down-does-not-pass-the-count");
          // no later record still at or below the count, unless flat
          int ok = 1;
          for (int i = 0; i < m; i++)
            if (T[i] > r && N (T[i]) <= c) { vp_reach ("flat"); ok = vp_and (ok, N (T[i]) == at); }
          vp_assert (ok, "time-rounded-down-is-the-start-of-the-last-level");
          vp_assert (r <= first || N (r - 1) < at, "time-rounded-down-is-the-first-at-its-level");
        }
      vp_obs_d ("time", r);
    }
  return 0;
}
