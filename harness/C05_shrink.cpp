// vp-sources: core
// vp-reach: dropped kept
// vp-bounds: curves of 5 records with arbitrary integer gaps 1..3 and arbitrary counts, shrunk to any size 1..6, then one more increment; queries at any time inside the retained window
#include "vp.h"
#include "dlink.h"
extern "C" int vp_main ()
{
  MNM_Cumulative_Curve cc;
  int T[6];
  double F[6];
  int t = 0;
  for (int i = 0; i < 5; i++)
    {
      if (i) t += vp_int ("gap", 1, 3);
      T[i] = t; F[i] = vp_dy ("f", 0, 64, 2);
      cc.add_increment (std::pair<TFlt, TFlt> (t, F[i]));
    }
  int keep = 1 + vp_choose ("keep", 6);
  cc.shrink (keep);
  vp_reach (keep < 5 ? "dropped" : "kept");
  vp_assert ((int) cc.m_recorder.size () == (keep < 5 ? keep : 5), "size-after-shrink");
  T[5] = t + vp_int ("gap", 1, 3); F[5] = vp_dy ("f", 0, 64, 2);
  cc.add_increment (std::pair<TFlt, TFlt> (T[5], F[5]));
  int oldest = keep < 5 ? 5 - keep : 0;
  double q = vp_dy ("q", 0, 100, 2);
  if (q < T[oldest]) return 0;
  double e = 0;
  for (int i = 0; i < 6; i++) if (T[i] <= q) e += F[i];
  vp_assert (cc.get_result (q) == e, "recent-counts-survive-shrinking");
  return 0;
}
