// vp-sources: shortest_path path ults
// vp-reach: turn-in-time waits last-interval three-links unreachable
// vp-bounds: time-dependent trees with turning costs: 5 nodes, 6 links, 3 intervals (thorough: 4); link costs arbitrary multiples of 1/4 in [0,64], link times multiples of 1/2 in [0.5,4] for two links in the first interval; turning costs arbitrary multiples of 1/4 in [0,16] with waits of 0, 1 or 2 whole intervals where the node has one way on, and a common turning cost without wait where it branches; every departure node and interval, also beyond the horizon
// vp-time: 300 1500
#include "sp_common.h"
#include <cmath>
extern "C" int vp_main ()
{
  int n = 5, M = vp_tier () ? 4 : 3;
  std::vector<SpLink> L = { { 10, 1, 0 }, { 13, 3, 2 }, { 11, 2, 0 }, { 12, 2, 1 }, { 14, 3, 1 }, { 15, 0, 4 } };
  if (vp_choose ("order", 2)) std::swap (L[0], L[3]), std::swap (L[1], L[4]);
  int m = (int) L.size ();
  macposts::Graph g;
  for (int i = 0; i < n; i++) g.add_node (i);
  std::vector<std::vector<double>> c (m), tt (m);
  std::unordered_map<TInt, TFlt *> cm, tm;
  for (int i = 0; i < m; i++)
    {
      g.add_link (L[i].from, L[i].to, L[i].id);
      c[i].resize (M); tt[i].resize (M);
      for (int t = 0; t < M; t++)
        {
          c[i][t] = vp_dy ("cost", 0, 256, 2);
          tt[i][t] = t < M - 2 && (L[i].id == 12 || L[i].id == 14) ? vp_dy ("tt", 1, 8, 1) : 0.5 * (1 + (i + t) % 3);
        }
      cm[L[i].id] = c[i].data (); tm[L[i].id] = tt[i].data ();
    }
  std::vector<std::vector<double>> tc (4, std::vector<double> (M)), tw (4, std::vector<double> (M, 0.0));
  int turn[4][2] = { { 12, 10 }, { 14, 10 }, { 13, 11 }, { 13, 12 } };
  int wait = vp_choose ("wait", 3);
  for (int t = 0; t < M; t++)
    {
      tc[0][t] = vp_dy ("turn", 0, 64, 2); tc[1][t] = vp_dy ("turn", 0, 64, 2);
      tc[2][t] = vp_dy ("turn", 0, 64, 2); tc[3][t] = tc[2][t];
      tw[0][t] = wait; tw[1][t] = (wait + t) % 3;
    }
  std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> nc, nt;
  for (int k = 0; k < 4; k++) { nc[turn[k][0]][turn[k][1]] = tc[k].data (); nt[turn[k][0]][turn[k][1]] = tw[k].data (); }
  auto tk = [&] (int a, int b) { for (int k = 0; k < 4; k++) if (turn[k][0] == a && turn[k][1] == b) return k; return -1; };
  auto cap = [&] (int t) { return t > M - 1 ? M - 1 : t; };
  auto nxt = [&] (int t, double x) { int s = (int) std::ceil (x); if (s < 1) s = 1; return cap (t + s); };
  MNM_TDSP_Tree tree (0, g, M);
  tree.initialize ();
  tree.update_tree (cm, nc, tm, nt);
  for (int t = 0; t < M; t++)
    for (int u = 0; u < n; u++)
      {
        double d = tree.m_dist[u][t];
        if (u == 0) { vp_assert (d == 0, "destination-at-zero"); continue; }
        if (u == 4)
          {
            vp_reach ("unreachable");
            MNM_Path p0;
            vp_assert (d > 1e300 && tree.m_tree[u][t] == -1 && tree.get_tdsp (u, t, tm, nt, &p0) == -1, "unreachable-has-no-route");
            continue;
          }
        if (t == M - 1) vp_reach ("last-interval");
        for (int i = 0; i < m; i++)
          if (L[i].from == u)
            {
              double best = c[i][t]; int t2 = t;
              if (t < M - 1) t2 = nxt (t, tt[i][t]);
              if (L[i].to != 0)
                {
                  int k = L[i].id == 13 ? 2 : L[i].id == 12 ? 0 : 1;
                  best += tc[k][t2];
                  int w = (int) tw[k][t2];
                  if (w && t2 < M - 1) vp_reach ("waits");
                  t2 = cap (t2 + w);
                }
              vp_assert (d <= best + tree.m_dist[L[i].to][t2], "no-better-first-link-with-turning-costs");
            }
        for (int late = 0; late < (t == M - 1 ? 2 : 1); late++)
          {
            MNM_Path p;
            double got = tree.get_tdsp (u, t + late * 5, tm, nt, &p);
            double sum = 0, csum = 0; int at = u, now = t, prev = -1;
            bool ok = p.m_node_vec.size () == p.m_link_vec.size () + 1 && p.m_node_vec.front () == u && p.m_node_vec.back () == 0;
            for (size_t q = 0; ok && q < p.m_link_vec.size (); q++)
              {
                int x = -1;
                for (int i = 0; i < m; i++) if (L[i].id == p.m_link_vec[q]) x = i;
                ok = x >= 0 && L[x].from == at && p.m_node_vec[q] == at;
                if (!ok) break;
                int k = prev >= 0 ? tk (prev, L[x].id) : -1;
                if (k >= 0) { csum += tc[k][now]; sum += tw[k][now]; now = cap (now + (int) tw[k][now]); if (now < M - 1) vp_reach ("turn-in-time"); }
                sum += tt[x][now]; csum += c[x][now];
                now = now == M - 1 ? now : nxt (now, tt[x][now]);
                at = L[x].to; prev = L[x].id;
              }
            vp_assert (ok && at == 0, "route-is-connected-to-destination");
            vp_assert (got == sum, "reported-travel-time-is-the-sum-on-arrival-times");
            vp_assert (csum == d, "route-cost-equals-distance");
            if (p.m_link_vec.size () > 2) vp_reach ("three-links");
            if (t == 0) vp_obs_d ("tt", got);
          }
      }
  return 0;
}
