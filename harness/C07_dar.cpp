// vp-sources: core dta_gradient_utls
// vp-reach: record filtered empty matrix
// vp-bounds: a link's path/departure-resolved curves filled by 3 (thorough: 4) arbitrary arrivals (time gaps 0..2; path among 2, departure interval among 2; flow multiples of 1/4 in [1/4,16]); every integer window of 1-4 intervals within 0..8, any subset of listed paths; matrix rows/columns for 2 links, 2 paths, arbitrary positive path flows
// vp-time: 300 1500
// vp-flags: -DEIGEN_DONT_VECTORIZE
#include "vp.h"
#include "dta_gradient_utls.h"
#include <stdexcept>
extern "C" int vp_main ()
{
  MNM_Dlink_Pq link (7, 1, 1, 1, 20, 10, 1, 1);
  MNM_Path P[2];
  P[0].m_path_ID = 41; P[1].m_path_ID = 42;
  std::unordered_map<MNM_Path *, int> pm;
  std::vector<dar_record *> rec;
  int th = 0;
  try { MNM_DTA_GRADIENT::add_dar_records (rec, &link, pm, 0, 1); } catch (const std::runtime_error &) { th++; }
  vp_assert (th == 1, "missing-tree-is-an-error");
  link.install_cumulative_curve_tree ();
  const int K = vp_tier () ? 4 : 3;
  int T[5], p[5], dep[5], t = 1;
  double f[5];
  for (int i = 0; i < K; i++)
    {
      t += vp_int ("gap", 0, 2); T[i] = t;
      bool sym = i == 0 && !vp_tier (); // quick: the first arrival names its path and interval
      p[i] = sym ? 0 : vp_choose ("path", 2); dep[i] = sym ? 0 : vp_choose ("dep", 2);
      f[i] = vp_dy ("flow", 1, 64, 2);
      link.m_N_in_tree->add_flow (T[i], f[i], &P[p[i]], dep[i]);
    }
  int listed = 1 + vp_choose ("listed", 3); // bit mask
  for (int i = 0; i < 2; i++) if (listed & (1 << i)) pm[&P[i]] = i;
  int s = vp_int ("start", 0, 8), e = s + vp_int ("len", 1, 4);
  MNM_DTA_GRADIENT::add_dar_records (rec, &link, pm, s, e);
  std::vector<Eigen::Triplet<double>> tri;
  double fp[4];
  bool mat = true;
  if (mat)
    {
      for (int i = 0; i < 4; i++) fp[i] = 0.5 * (1 << i);
      MNM_DTA_GRADIENT::add_dar_records_eigen (tri, &link, pm, s, e, 1, 3, 2, 2, fp);
      vp_reach ("matrix");
    }
  size_t expected = 0;
  for (int x = 0; x < 2; x++)
    for (int dd = 0; dd < 2; dd++)
      {
        double flow = 0;
        for (int i = 0; i < K; i++) if (p[i] == x && dep[i] == dd) flow += vp_and (T[i] > s, T[i] <= e) * f[i];
        int cnt = 0;
        dar_record *hit = nullptr;
        for (dar_record *r : rec) if (r->path_ID == P[x].m_path_ID && r->assign_int == dd) { cnt++; hit = r; }
        int want = vp_and (flow > 0, (listed & (1 << x)) != 0);
        expected += cnt;
        vp_assert (cnt == want, "one-record-per-path-and-departure-with-flow");
        if (!(listed & (1 << x))) vp_reach ("filtered");
        if (hit)
          {
            vp_reach ("record");
            vp_assert (hit->flow == flow, "record-flow-is-what-arrived-in-the-window");
            vp_assert (hit->link_ID == 7 && hit->link_start_int == s, "record-names-link-and-window");
          }
        if (mat)
          {
            int c2 = 0;
            for (auto &q : tri) if ((int) q.col () == x + 2 * dd) { c2++; vp_assert ((int) q.row () == 1 + 2 * 3, "matrix-row"); vp_assert (q.value () * fp[x + 2 * dd] == flow, "matrix-entry-is-share-of-path-flow"); }
            vp_assert (c2 == want, "matrix-entry-for-each-record");
          }
      }
  vp_assert (rec.size () == expected, "no-other-records");
  if (expected == 0) vp_reach ("empty");
  for (dar_record *r : rec) delete r;
  return 0;
}
