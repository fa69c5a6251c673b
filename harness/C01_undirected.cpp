// vp-sources:
// vp-reach: both_sides parallel
// vp-bounds: undirected graph: 3 nodes, 3 links with arbitrary endpoints
// vp-time: 200 2400
#include "vp.h"
#include "graph.h"
#include <vector>
using namespace macposts::graph;
typedef UnGraph<int, int> G;
extern "C" int vp_main ()
{
  const int NN = 3, K = 3;
  G g;
  for (int i = 0; i < NN; i++) g.add_node (i, 100 + i);
  int f[K], t[K];
  for (int k = 0; k < K; k++)
    {
      f[k] = vp_int ("from", 0, NN - 1); t[k] = vp_int ("to", 0, NN - 1);
      vp_assume (f[k] != t[k]);
      g.add_link (f[k], t[k], k, k);
      f[k] = vp_conc (f[k]); t[k] = vp_conc (t[k]);
    }
  for (int i = 0; i < NN; i++)
    {
      int c[K] = { 0 }, mask = 0, in = 0, out = 0;
      for (int k = 0; k < K; k++)
        {
          if (f[k] == i) { c[k] = 1; if (mask & (1 << t[k])) vp_reach ("parallel"); mask |= 1 << t[k]; out = 1; }
          if (t[k] == i) { c[k] = 1; if (mask & (1 << f[k])) vp_reach ("parallel"); mask |= 1 << f[k]; in = 1; }
        }
      if (in && out) vp_reach ("both_sides");
      int n = 0, got = 0;
      for (auto &l : g.connections (i)) { int id = g.get_id (l); vp_assert (c[id] == 1, "incident-once"); c[id]--; if (++n > 8) break; }
      for (int k = 0; k < K; k++) vp_assert (c[k] == 0, "incident-complete");
      n = 0;
      for (auto &nn : g.neighbors (i)) { int o = g.get_id (nn); vp_assert (!(got & (1 << o)), "neighbors-distinct"); got |= 1 << o; if (++n > 8) break; }
      vp_assert (got == mask, "neighbors-complete");
      vp_obs_i ("got", got);
    }
  return 0;
}
