// vp-sources: shortest_path path ults
// vp-reach: unreachable turn noturn detour
// vp-bounds: label-correcting search with turning costs (both map layouts): two topologies of 5-6 nodes with 7 links, every link cost an arbitrary multiple of 1/4 in [0,64]; no turning cost, or arbitrary ones (multiples of 1/4 up to 32) on three turns into nodes with a single way on plus one common cost for all turns of a link
// vp-time: 200 900
#include "sp_common.h"
extern "C" int vp_main ()
{
  int ptr = vp_choose ("layout", 2), k = vp_choose ("topology", 2), turns = vp_choose ("turns", 2), n = 6;
  // 0 destination; 1, 2: one way on; 3 branches; 4 starts; 5 cannot reach the destination
  std::vector<SpLink> L = { { 10, 1, 0 }, { 11, 2, 0 }, { 12, 3, 1 }, { 13, 3, 2 }, { 14, 4, 3 }, { 15, 4, 1 }, { 16, 0, 5 } };
  if (k) L = { { 14, 4, 3 }, { 10, 1, 2 }, { 11, 2, 0 }, { 13, 3, 0 }, { 12, 3, 1 }, { 15, 4, 1 }, { 16, 0, 5 } };
  macposts::Graph g;
  for (int i = 0; i < n; i++) g.add_node (i);
  std::unordered_map<TInt, double> c;
  for (auto &l : L) { g.add_link (l.from, l.to, l.id); c[l.id] = vp_dy ("cost", 0, 256, 2); }
  double T[20][20] = { { 0 } };
  std::vector<std::pair<int, int>> tu;
  if (turns)
    {
      vp_reach ("turn");
      auto add = [&] (int a, int b, double x) { T[a][b] = x; tu.push_back ({ a, b }); };
      if (!k) { add (12, 10, vp_dy ("turn", 0, 128, 2)); add (13, 11, vp_dy ("turn", 0, 128, 2)); add (15, 10, vp_dy ("turn", 0, 128, 2)); }
      else { add (12, 10, vp_dy ("turn", 0, 128, 2)); add (10, 11, vp_dy ("turn", 0, 128, 2)); add (15, 10, vp_dy ("turn", 0, 128, 2)); }
      double x = vp_dy ("turn", 0, 128, 2); add (14, 12, x); add (14, 13, x);
    }
  else vp_reach ("noturn");
  std::unordered_map<TInt, TInt> out;
  std::unordered_map<TInt, double> dist; bool have = false;
  if (!ptr)
    {
      std::unordered_map<TInt, TFlt> cm; std::unordered_map<TInt, std::unordered_map<TInt, TFlt>> nm;
      for (auto &l : L) cm[l.id] = c[l.id];
      for (auto &p : tu) nm[p.first][p.second] = T[p.first][p.second];
      for (int i = 1; i < n; i++) if (i != 2) out[i] = 12;
      MNM_Shortest_Path::all_to_one_FIFO (0, g, cm, nm, out);
    }
  else
    {
      std::vector<std::vector<double>> cb (20, std::vector<double> (3, 5)), db (n, std::vector<double> (2, 77)), tb (400, std::vector<double> (3, 9));
      std::vector<std::vector<int>> ob (n, std::vector<int> (2, 77));
      std::unordered_map<TInt, TFlt *> cm, dm; std::unordered_map<TInt, TInt *> om; std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> nm;
      for (auto &l : L) { cb[l.id][1] = c[l.id]; cm[l.id] = cb[l.id].data (); }
      for (auto &p : tu) { auto &v = tb[20 * p.first + p.second]; v[1] = T[p.first][p.second]; nm[p.first][p.second] = v.data (); }
      for (int i = 0; i < n; i++) { dm[i] = db[i].data (); om[i] = ob[i].data (); }
      MNM_Shortest_Path::all_to_one_FIFO (0, g, cm, nm, dm, om, 1, 1, 1);
      for (int i = 0; i < n; i++) { vp_assert (ob[i][0] == 77 && db[i][0] == 77, "other-interval-untouched"); dist[i] = db[i][1]; if (i) out[i] = ob[i][1]; }
      vp_assert (dist[0] == 0, "destination-distance-zero");
      have = true;
    }
  for (int s = 1; s < n; s++)
    {
      std::vector<std::vector<int>> ps; std::vector<int> cur;
      sp_paths (L, n, s, 1 << s, cur, ps);
      vp_assert (out.count (s) == 1, "every-node-has-an-entry");
      if (ps.empty ()) { vp_reach ("unreachable"); vp_assert (out[s] == -1 && (!have || dist[s] > 1e300), "unreachable-is-minus-one"); continue; }
      double total = 0; int at = s, prev = -1, hops = 0; bool ok = true;
      while (at != 0 && ok)
        {
          int q = -1; for (auto &l : L) if (l.id == out[at] && l.from == at) { q = l.to; total += c[l.id] + (prev >= 0 ? T[prev][l.id] : 0); prev = l.id; }
          if (q < 0 || hops++ > n) ok = false; else at = q;
        }
      vp_assert (ok, "tree-leads-to-destination-over-real-links");
      if (!ok) continue;
      if (hops > 2) vp_reach ("detour");
      for (auto &p : ps)
        {
          double t = 0; int pv = -1;
          for (int i : p) { t += c[L[i].id] + (pv >= 0 ? T[pv][L[i].id] : 0); pv = L[i].id; }
          vp_assert (total <= t, "tree-path-is-shortest-with-turning-costs");
        }
      if (have) vp_assert (dist[s] == total, "distance-equals-path-cost");
      vp_obs_d ("total", total);
    }
  return 0;
}
