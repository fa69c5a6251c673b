// vp-sources: shortest_path path ults
// vp-reach: unreachable tie detour
// vp-bounds: static shortest path trees: five topologies of 4-5 nodes with 6-7 links (parallel links, cycles, an unreachable node), destination fixed, every link cost an arbitrary multiple of 1/4 in [0, 256]; output map either empty or holding arbitrary stale entries
// vp-time: 300 2400
#include "sp_common.h"
extern "C" int vp_main ()
{
  int algo = vp_choose ("algo", 5);
  int n;
  std::vector<SpLink> L = sp_topology (vp_choose ("topology", vp_tier () ? 5 : 4), n);
  macposts::Graph g;
  for (int i = 0; i < n; i++) g.add_node (i);
  std::unordered_map<TInt, TFlt> cost;
  std::vector<double> c (L.size ());
  for (size_t i = 0; i < L.size (); i++)
    {
      g.add_link (L[i].from, L[i].to, L[i].id);
      c[i] = vp_dy ("cost", 0, 1024, 2);
      cost[L[i].id] = c[i];
    }
  std::unordered_map<TInt, TInt> out;
  bool stale = vp_choose ("stale", 2);
  if (stale) for (int i = 0; i < n; i++) if (i) out[i] = L[0].id;
  std::unordered_map<TInt, TFlt> dist;
  bool have = false;
  std::unordered_map<TInt, TFlt *> cp, dp;
  std::unordered_map<TInt, TInt *> op;
  std::vector<double> cbuf (3 * L.size ()), dbuf (2 * n);
  std::vector<int> obuf (2 * n);
  switch (algo)
    {
    case 0: MNM_Shortest_Path::all_to_one_FIFO (0, g, cost, out); break;
    case 1: MNM_Shortest_Path::all_to_one_Dijkstra (0, g, dist, cost, out); have = true; break;
    case 2: MNM_Shortest_Path::all_to_one_LIFO (0, g, cost, out); break;
    default:
      for (size_t i = 0; i < L.size (); i++) { cp[L[i].id] = &cbuf[3 * i]; cbuf[3 * i] = 7; cbuf[3 * i + 1] = c[i]; cbuf[3 * i + 2] = 3; }
      for (int i = 0; i < n; i++) { dp[i] = &dbuf[2 * i]; op[i] = &obuf[2 * i]; obuf[2 * i] = 77; dbuf[2 * i] = 77; }
      if (algo == 3) MNM_Shortest_Path::all_to_one_Dijkstra (0, g, cp, dp, op, 1, 1, 1);
      else MNM_Shortest_Path::all_to_one_FIFO (0, g, cp, dp, op, 1, 1, 1);
      for (int i = 0; i < n; i++) { dist[i] = dbuf[2 * i + 1]; if (i) out[i] = obuf[2 * i + 1]; vp_assert (obuf[2 * i] == 77, "other-interval-untouched"); vp_assert (dbuf[2 * i] == 77, "other-interval-distance-untouched"); }
      have = true;
    }
  for (int s = 1; s < n; s++)
    {
      std::vector<std::vector<int>> ps;
      std::vector<int> cur;
      sp_paths (L, n, s, 1 << s, cur, ps);
      vp_assert (out.count (s) == 1, "every-node-has-an-entry");
      if (ps.empty ())
        {
          vp_reach ("unreachable");
          vp_assert (out[s] == -1, "unreachable-is-minus-one");
          if (have) vp_assert (dist[s] > 1e300, "unreachable-distance");
          continue;
        }
      // follow the tree
      double total = 0;
      int at = s, steps = 0, hops = 0;
      bool ok = true;
      while (at != 0 && ok)
        {
          if (out.count (at) == 0 || steps++ > n) { ok = false; break; }
          int lid = out[at], k = -1;
          for (size_t i = 0; i < L.size (); i++) if (L[i].id == lid && L[i].from == at) k = (int) i;
          if (k < 0) { ok = false; break; }
          total += c[k]; at = L[k].to; hops++;
        }
      vp_assert (ok, "tree-leads-to-destination-over-real-links");
      if (!ok) continue;
      if (hops > 2) vp_reach ("detour");
      for (auto &p : ps)
        {
          double t = 0;
          for (int i : p) t += c[i];
          vp_assert (total <= t, "tree-path-is-shortest");
          if (ps.size () > 1 && (int) p.size () != hops) { vp_reach ("tie"); }
        }
      if (have) vp_assert (dist[s] == total, "distance-equals-path-cost");
      vp_obs_d ("total", total);
    }
  if (have) vp_assert (dist[0] == 0, "destination-distance-zero");
  return 0;
}
