// vp-sources: shortest_path path ults
// vp-reach: yes no
// vp-bounds: is_FIFO: two links, 4 intervals, all costs arbitrary multiples of 1/4 in [0,64], any unit time in [1/4,8]
#include "sp_common.h"
extern "C" int vp_main ()
{
  macposts::Graph g;
  for (int i = 0; i < 3; i++) g.add_node (i);
  g.add_link (0, 1, 5); g.add_link (1, 2, 6);
  double c[2][4], unit = vp_dy ("unit", 1, 32, 2);
  std::unordered_map<TInt, TFlt *> cm;
  int n = 2 + vp_choose ("intervals", 3);
  int all = 1;
  for (int i = 0; i < 2; i++)
    for (int t = 0; t < 4; t++)
      {
        c[i][t] = vp_dy ("c", 0, 256, 2);
        if (t > 0 && t < n) all = vp_and (all, c[i][t - 1] <= unit + c[i][t]);
      }
  cm[5] = c[0]; cm[6] = c[1];
  bool r = MNM_Shortest_Path::is_FIFO (g, cm, n, unit);
  if (r) { vp_reach ("yes"); vp_assert (all, "reported-fifo-is-fifo"); }
  else { vp_reach ("no"); vp_assert (vp_not (all), "reported-non-fifo-is-not"); }
  return 0;
}
