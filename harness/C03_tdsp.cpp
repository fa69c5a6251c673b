// vp-sources: shortest_path path ults
// vp-reach: unreachable late waits-better detour closed-link
// vp-bounds: time-dependent trees: three topologies of 3-4 nodes with 4-6 links, 3 intervals (thorough: 4), every time-dependent link cost an arbitrary multiple of 1/4 in [0,64] (or closed = infinite for one link), every link travel time an arbitrary multiple of 1/2 in [0.5, 4] intervals; every departure node and interval (also beyond the horizon)
// vp-time: 400 2400
#include "sp_common.h"
#include <cmath>
static std::vector<SpLink> topo (int k, int &n)
{
  switch (k)
    {
    case 0: n = 3; return { { 10, 2, 1 }, { 11, 1, 0 }, { 12, 2, 0 }, { 13, 1, 2 } };
    case 1: n = 4; return { { 20, 3, 2 }, { 21, 2, 1 }, { 22, 1, 0 }, { 23, 3, 0 } };
    case 2: n = 4; return { { 30, 1, 0 }, { 31, 2, 0 }, { 32, 2, 1 }, { 33, 0, 3 }, { 34, 1, 0 } };
    default: n = 4; return { { 40, 3, 1 }, { 41, 3, 2 }, { 42, 1, 0 }, { 43, 2, 0 }, { 44, 1, 2 } };
    }
}
extern "C" int vp_main ()
{
  int n;
  int k = vp_choose ("topology", vp_tier () ? 4 : 3);
  std::vector<SpLink> L = topo (k, n);
  int M = vp_tier () && k == 0 ? 4 : 3;
  int m = (int) L.size ();
  macposts::Graph g;
  for (int i = 0; i < n; i++) g.add_node (i);
  std::vector<std::vector<double>> c (m), tt (m);
  std::unordered_map<TInt, TFlt *> cm, tm;
  // closing the last link in interval 0: an infinite cost means "not usable now"
  bool closed = (k == 0 && vp_choose ("closed", 2));
  for (int i = 0; i < m; i++)
    {
      g.add_link (L[i].from, L[i].to, L[i].id);
      c[i].resize (M); tt[i].resize (M);
      for (int t = 0; t < M; t++)
        {
          c[i][t] = vp_dy ("cost", 0, 256, 2);
          // in the last two intervals any travel time leads to the last one
          tt[i][t] = t < M - 2 ? vp_dy ("tt", 1, 8, 1) : (t == M - 2 ? 1.5 : 0.5 * (i + 1));
        }
      if (closed && i == m - 1) c[i][0] = std::numeric_limits<double>::infinity ();
      cm[L[i].id] = c[i].data (); tm[L[i].id] = tt[i].data ();
    }
  MNM_TDSP_Tree tree (0, g, M);
  tree.initialize ();
  tree.update_tree (cm, tm);
  auto nxt = [&] (int t, double x) { int s = (int) std::ceil (x); if (s < 1) s = 1; return t + s > M - 1 ? M - 1 : t + s; };
  for (int t = 0; t < M; t++)
    for (int u = 0; u < n; u++)
      {
        double d = tree.m_dist[u][t];
        if (u == 0) { vp_assert (d == 0, "destination-at-zero"); continue; }
        std::vector<std::vector<int>> ps;
        std::vector<int> cur;
        sp_paths (L, n, u, 1 << u, cur, ps);
        if (ps.empty ())
          {
            vp_reach ("unreachable");
            vp_assert (tree.m_tree[u][t] == -1, "unreachable-has-no-next-link");
            vp_assert (d > 1e300, "unreachable-distance-infinite");
            MNM_Path p0;
            vp_assert (tree.get_tdsp (u, t, tm, &p0) == -1, "unreachable-route-is-minus-one");
            continue;
          }
        for (int i = 0; i < m; i++)
          if (L[i].from == u && c[i][t] < 1e300)
            {
              int t2 = t == M - 1 ? t : nxt (t, tt[i][t]);
              vp_assert (d <= c[i][t] + tree.m_dist[L[i].to][t2], "no-better-first-link");
              if (t2 - t > 1) vp_reach ("late");
            }
        if (closed && t == 0) vp_reach ("closed-link");
        // the route actually handed out
        for (int late = 0; late < (t == M - 1 ? 2 : 1); late++)
          {
            MNM_Path p;
            double got = tree.get_tdsp (u, t + late * 5, tm, &p);
            double sum = 0, csum = 0;
            int at = u, now = t;
            bool ok = p.m_node_vec.size () == p.m_link_vec.size () + 1 && p.m_node_vec.front () == u && p.m_node_vec.back () == 0;
            vp_assert (got >= 0, "reachable-route-is-found");
            for (size_t q = 0; ok && q < p.m_link_vec.size (); q++)
              {
                int x = -1;
                for (int i = 0; i < m; i++) if (L[i].id == p.m_link_vec[q]) x = i;
                ok = x >= 0 && L[x].from == at && p.m_node_vec[q] == at;
                if (!ok) break;
                sum += tt[x][now]; csum += c[x][now];
                now = now == M - 1 ? now : nxt (now, tt[x][now]);
                at = L[x].to;
              }
            vp_assert (ok && at == 0, "route-is-connected-to-destination");
            vp_assert (got == sum, "reported-travel-time-is-the-sum-on-arrival-times");
            vp_assert (csum == d, "route-cost-equals-distance");
            vp_assert (tree.m_dist[u][t] == tree.get_distance_to_destination (u, TFlt (t) - 0.5 < 0 ? 0.0 : TFlt (t) - 0.5) || t == 0, "distance-lookup-rounds-up");
            if (p.m_link_vec.size () > 2) vp_reach ("detour");
            if (t == 0 && p.m_link_vec.size () == 2) vp_reach ("waits-better");
            if (t == 0) vp_obs_d ("tt", got);
          }
      }
  return 0;
}
