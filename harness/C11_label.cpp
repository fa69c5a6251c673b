// vp-sources: core
// vp-reach: label none last
// vp-bounds: 1-3 vehicle label ratios, any multiples of 1/16 up to 1, every random draw
// vp-time: 120 600
#include "vp.h"
#include "od.h"
#include "dnode.h"
extern "C" int vp_main ()
{
  MNM_Origin o (9, 2, 1, 1);
  vp_assert (o.generate_label (0) == -1, "no-ratios-no-label");
  int n = 1 + vp_choose ("labels", 3);
  double p[3], tot = 0;
  for (int i = 0; i < n; i++) { p[i] = vp_dy ("ratio", 0, 16, 4); o.m_vehicle_label_ratio.push_back (p[i]); tot += p[i]; }
  int l = o.generate_label (0);
  vp_assert (l >= -1 && l < n, "label-in-range");
  if (tot >= 1) vp_assert (l >= 0, "complete-ratios-always-give-a-label");
  if (tot <= 0) vp_assert (l == -1, "zero-ratios-give-no-label");
  if (l >= 0) vp_reach ("label"); else vp_reach ("none");
  // over all draws a label occurs only if its share is positive (the draw 0 goes to the first)
  if (l > 0) { vp_reach ("last"); vp_assert (p[l] > 0 || l == 0, "only-labels-with-a-share"); }
  return 0;
}
