// vp-sources: core
// vp-reach: found none wrong-link beyond
// vp-bounds: extract_path over every next-link tree of a 4-node acyclic graph (each node's next link arbitrary among its out-links, -1 or absent); get_path_tt_snapshot and get_path_tt over 3-link routes with arbitrary link costs (snapshot: multiples of 1/4 up to 256; time-dependent: integers 0..6, 4 intervals, any departure 0..5)
#include "vp.h"
#include "path.h"
#include <stdexcept>
extern "C" int vp_main ()
{
  if (vp_choose ("part", 2) == 0)
    {
      macposts::Graph g;
      for (int i = 0; i < 4; i++) g.add_node (i);
      int fr[6] = { 3, 3, 3, 2, 2, 1 }, to[6] = { 2, 1, 0, 1, 0, 0 };
      for (int i = 0; i < 6; i++) g.add_link (fr[i], to[i], 10 + i);
      std::unordered_map<TInt, TInt> out;
      int nx[4] = { -2, -2, -2, -2 };
      for (int u = 1; u < 4; u++)
        {
          int c = vp_choose ("next", 5);
          if (c == 0) continue;
          nx[u] = -1;
          if (c >= 2)
            { int k = 0; for (int i = 0; i < 6; i++) if (fr[i] == u && k++ == c - 2) nx[u] = 10 + i; }
          out[u] = nx[u];
        }
      int src = vp_choose ("src", 4);
      MNM_Path *p = MNM::extract_path (src, 0, out, g);
      int at = src, steps = 0;
      bool ok = true;
      std::vector<int> ref, rn;
      while (at != 0 && steps++ < 5) { if (nx[at] < 0) { ok = false; break; } rn.push_back (at); ref.push_back (nx[at]); at = to[nx[at] - 10]; }
      rn.push_back (0);
      vp_assert (ok == (p != nullptr), "path-found-iff-tree-reaches");
      if (p)
        {
          vp_reach ("found");
          vp_assert (p->m_link_vec.size () == ref.size () && p->m_node_vec.size () == rn.size (), "path-length");
          for (size_t i = 0; i < ref.size (); i++) vp_assert (p->m_link_vec[i] == ref[i], "path-links");
          for (size_t i = 0; i < rn.size (); i++) vp_assert (p->m_node_vec[i] == rn[i], "path-nodes");
          delete p;
        }
      else vp_reach ("none");
      return 0;
    }
  std::unordered_map<TInt, TFlt> snap;
  std::unordered_map<TInt, TFlt *> td;
  double s[3], c[3][4];
  MNM_Path p;
  int n = 1 + vp_choose ("n", 3);
  bool wrong = vp_choose ("wrong", 2);
  double tot = 0;
  for (int i = 0; i < 3; i++)
    {
      s[i] = vp_dy ("s", 0, 1024, 2);
      snap[5 + i] = s[i];
      for (int t = 0; t < 4; t++) c[i][t] = vp_int ("c", 0, 6);
      td[5 + i] = c[i];
      if (i < n) { p.m_link_vec.push_back (5 + i); tot += s[i]; }
    }
  if (wrong)
    {
      p.m_link_vec.push_back (99);
      int th = 0;
      try { MNM::get_path_tt_snapshot (&p, snap); } catch (const std::runtime_error &) { th++; }
      try { MNM::get_path_tt (0, &p, td, 4); } catch (const std::runtime_error &) { th++; }
      vp_assert (th == 2, "unknown-link-is-an-error");
      vp_reach ("wrong-link");
      return 0;
    }
  vp_assert (MNM::get_path_tt_snapshot (&p, snap) == tot, "snapshot-time-is-sum");
  int start = vp_choose ("start", 6), now = start;
  double got = MNM::get_path_tt (start, &p, td, 4);
  for (int i = 0; i < n; i++)
    {
      int k = now < 4 ? now : 3;
      if (now >= 4) vp_reach ("beyond");
      now += vp_conc ((int) c[i][k]);
    }
  vp_assert (got == now - start, "time-dependent-time-follows-arrival-times");
  return 0;
}
