// vp-sources: core dta io
// vp-reach: arrays files turns no-turns rejected rebuilt
// vp-bounds: time-dependent routes from Python: a network of 4 nodes and 5 links from files, 3 intervals; link costs arbitrary multiples of 1/4 up to 64 on two links, turning costs at a node with one way on likewise, given as arrays or as files (with and without turning costs); every departure node and interval; a tree rebuilt for another destination
// vp-time: 300 1200
#include "vp.h"
#include "macposts/_ext/tdsp.cpp"
#include <cmath>
#include <stdexcept>
typedef macposts::tdsp::Tdsp Api;
typedef pybind11::array_t<double> AD;
static const int L[5][3] = { { 11, 1, 2 }, { 12, 1, 3 }, { 13, 2, 3 }, { 14, 3, 4 }, { 15, 2, 4 } };
static int close (double a, double b) { return vp_and (a - b <= 1e-9, b - a <= 1e-9); }
extern "C" int vp_main ()
{
  const int M = 3;
  int files = vp_choose ("files", 2), turns = vp_choose ("turns", 2);
  std::string d = vp_dir ();
  vp_write ((d + "/config.conf").c_str (), "[Network]\nnetwork_name = net\nnum_of_link = 5\nnum_of_node = 4\n", nullptr);
  vp_write ((d + "/net").c_str (), "# l f t\n11 1 2\n12 1 3\n13 2 3\n14 3 4\n15 2 4\n", nullptr);
  Api *a = new Api ();
  a->initialize (d, M, 5, turns ? 2 : -1);
  double c[5][3], t[5][3], w[2][3] = { { 0 } }, z[2][3] = { { 0 } };
  for (int i = 0; i < 5; i++) for (int k = 0; k < M; k++) { c[i][k] = i == 1 || i == 2 ? vp_dy ("cost", 0, 256, 2) : 2 + i; t[i][k] = 1 + (i + k) % 2; }
  // turns 12 -> 14 and 13 -> 14
  for (int j = 0; j < 2; j++) for (int k = 0; k < M; k++) { w[j][k] = turns ? j ? 1 : vp_dy ("turn", 0, 64, 2) : 0; z[j][k] = turns ? (j + k) % 2 : 0; }
  AD lt (std::vector<long>{ 5, M + 1 }), lc (std::vector<long>{ 5, M + 1 }), nt (std::vector<long>{ 2, M + 3 }), nc (std::vector<long>{ 2, M + 3 });
  for (int i = 0; i < 5; i++) { lt[i * 4] = lc[i * 4] = L[i][0]; for (int k = 0; k < M; k++) { lt[i * 4 + 1 + k] = t[i][k]; lc[i * 4 + 1 + k] = c[i][k]; } }
  for (int j = 0; j < 2; j++) { nt[j * 6] = nc[j * 6] = 3; nt[j * 6 + 1] = nc[j * 6 + 1] = 12 + j; nt[j * 6 + 2] = nc[j * 6 + 2] = 14; for (int k = 0; k < M; k++) { nt[j * 6 + 3 + k] = z[j][k]; nc[j * 6 + 3 + k] = w[j][k]; } }
  if (vp_choose ("bad", 5) == 4)
    {
      int th = 0, k = vp_choose ("which", 4);
      try { a->read_td_cost_py (k == 0 ? AD (std::vector<long>{ 4, M + 1 }) : k == 1 ? AD (std::vector<long>{ 5, M }) : k == 2 ? AD (size_t (20)) : lt, lc, k == 3 ? AD (std::vector<long>{ 2, M + 2 }) : nt, nc); } catch (const std::runtime_error &) { th = 1; }
      vp_assert (th == (k < 3 || turns), "tables-of-the-wrong-shape-are-rejected"); vp_reach ("rejected");
      delete a;
      return 0;
    }
  if (files)
    {
      auto wr = [&] (const char *n, AD &x, int cols) {
        std::string s = "header\n";
        for (size_t i = 0; i < x.size () / cols; i++) { for (int k = 0; k < cols; k++) s += k ? " %" : "%"; s += "\n"; }
        vp_write ((d + "/" + n).c_str (), s.c_str (), x.b->p);
      };
      d = vp_dir (); // own files for this branch
      wr ("a", lt, M + 1); wr ("b", nt, M + 3); wr ("c", lc, M + 1); wr ("e", nc, M + 3);
      a->read_td_cost_txt (d, "a", "b", "c", "e"); vp_reach ("files");
    }
  else { a->read_td_cost_py (lt, lc, nt, nc); vp_reach ("arrays"); }
  vp_reach (turns ? "turns" : "no-turns");
  int again = vp_choose ("again", 2), dest = 4;
  a->build_tdsp_tree (again ? 3 : 4);
  if (again) { vp_reach ("rebuilt"); a->build_tdsp_tree (4); }
  for (int o = 1; o < 4; o++)
    {
      int s = o == 1 ? vp_choose ("depart", M) : 0;
      AD r = a->extract_tdsp (o, s);
      vp_assert (r.sh.size () == 2 && r.sh[1] == 4 && r.sh[0] >= 2, "four-columns");
      int n = (int) r.sh[0], now = s, at = o, prev = -1; double cost = 0;
      auto cap = [&] (int x) { return x > M - 1 ? M - 1 : x; };
      for (int i = 0; i + 1 < n; i++)
        {
          int k = -1; for (int j = 0; j < 5; j++) if (L[j][0] == (int) r[4 * i + 1]) k = j;
          vp_assert (k >= 0, "links-of-the-network"); if (k < 0) return 0;
          vp_assert (r[4 * i] == at && L[k][1] == at, "nodes-and-links-in-order");
          if (turns && (prev == 1 || prev == 2) && k == 3) { int j = prev - 1; cost += w[j][cap (now)]; now += (int) z[j][cap (now)]; }
          cost += c[k][cap (now)]; now += (int) t[k][cap (now)];
          at = L[k][2]; prev = k;
          if (i) vp_assert (r[4 * i + 2] == -1 && r[4 * i + 3] == -1, "totals-in-the-first-row-only");
        }
      vp_assert (at == dest && r[4 * (n - 1)] == dest && r[4 * (n - 1) + 1] == -1, "ends-at-the-destination");
      vp_assert (close (r[2], cost), "cost-is-that-of-the-route");
      vp_assert (r[3] == now - s, "time-is-that-of-the-route");
      // no other route is cheaper
      static const int R[3][3] = { { 0, 4, -1 }, { 1, 3, -1 }, { 0, 2, 3 } };
      for (auto &x : R)
        {
          if (L[x[0]][1] != o && !(o == 2 && x[0] == 0) && o != 3) continue;
          int tm = s, pv = -1, on = o == 1; double cc = 0; int skip = 0;
          for (int k : x) if (k >= 0)
            {
              if (!on && L[k][1] == o) on = 1;
              if (!on) continue;
              if (turns && (pv == 1 || pv == 2) && k == 3) { int j = pv - 1; cc += w[j][cap (tm)]; tm += (int) z[j][cap (tm)]; }
              cc += c[k][cap (tm)]; tm += (int) t[k][cap (tm)]; pv = k;
            }
          if (!on) skip = 1;
          if (!skip) vp_assert (cost <= cc + 1e-9, "no-route-is-cheaper");
        }
    }
  delete a;
  return 0;
}
