// vp-sources:
// vp-reach: dup_link self_loop missing_node two_parallel star
// vp-bounds: directed graph: 3 nodes with arbitrary payloads, 3 (quick) or 4 (thorough) add_link calls with arbitrary endpoints (including an unknown node) and arbitrary ids
// vp-time: 200 2400
#include "vp.h"
#include "graph.h"
#include <utility>
#include <vector>
using namespace macposts::graph;
typedef DiGraph<int, int> G;

static int cnt (const std::vector<int> &v, int x)
{
  int c = 0;
  for (int y : v) if (y == x) c++;
  return c;
}
extern "C" int vp_main ()
{
  const int NN = 3;
  G g;
  int payload[NN];
  for (int i = 0; i < NN; i++)
    {
      payload[i] = vp_int ("payload", -1000, 1000);
      G::Node &n = g.add_node (i, payload[i]);
      vp_assert (g.get_id (n) == i, "node-id");
    }
  struct L { int from, to, id, data; };
  std::vector<L> model;
  const int OPS = vp_tier () ? 4 : 3;
  for (int k = 0; k < OPS; k++)
    {
      int last = k == OPS - 1;
      int from = vp_int ("from", 0, last ? NN : NN - 1);
      int to = vp_int ("to", 0, last ? NN : NN - 1);
      int id = vp_int ("id", 0, last ? 2 : 1 + (k > 0));
      if (k == 0) id = 0;
      int data = vp_int ("data", -1000, 1000);
      bool dup = false;
      for (L &l : model) if (l.id == id) dup = true;
      bool bad = dup || from == to || from >= NN || to >= NN;
      bool threw = false;
      try { G::Link &l = g.add_link (from, to, id, data); vp_assert (g.get_id (l) == id, "link-id"); }
      catch (const std::exception &) { threw = true; }
      vp_assert (threw == bad, "link-rejected-iff-invalid");
      if (bad) { if (dup) vp_reach ("dup_link"); if (from == to) vp_reach ("self_loop"); if (from >= NN) vp_reach ("missing_node"); }
      else model.push_back (L{ vp_conc (from), vp_conc (to), vp_conc (id), data });
    }
  bool nd = false;
  try { g.add_node (1, 7); } catch (const std::exception &) { nd = true; }
  vp_assert (nd, "duplicate-node-rejected");
  vp_assert (g.size_nodes () == (size_t) NN, "node-count");
  vp_assert (g.size_links () == model.size (), "link-count");
  int seenN = 0;
  for (auto &n : g.nodes ()) { int i = g.get_id (n); vp_assert (n.data == payload[i], "node-payload"); seenN |= 1 << i; }
  vp_assert (seenN == (1 << NN) - 1, "nodes-enumerated");
  std::vector<int> allids;
  for (auto &l : g.links ()) allids.push_back (g.get_id (l));
  vp_assert (allids.size () == model.size (), "links-enumerated-once");
  for (L &l : model)
    {
      vp_assert (cnt (allids, l.id) == 1, "links-enumerated");
      auto &lk = g.get_link (l.id);
      vp_assert (lk.data == l.data, "link-payload");
      auto ep = g.get_endpoints (l.id);
      vp_assert (g.get_id (ep.first) == l.from, "endpoint-from");
      vp_assert (g.get_id (ep.second) == l.to, "endpoint-to");
    }
  for (int q = 0; q < 4; q++)
    {
      bool in = false; for (L &l : model) if (l.id == q) in = true;
      bool threw = false;
      try { g.get_link (q); } catch (const std::exception &) { threw = true; }
      vp_assert (threw == !in, "unknown-link-lookup-rejected");
    }
  { bool t = false; try { g.get_node (NN); } catch (const std::exception &) { t = true; } vp_assert (t, "unknown-node-lookup-rejected"); }
  for (int i = 0; i < NN; i++)
    for (int d = 0; d < 2; d++)
      {
        Direction dir = d ? Direction::Outgoing : Direction::Incoming;
        std::vector<int> ids, exp, nb;
        for (auto &l : g.connections (i, dir)) ids.push_back (g.get_id (l));
        int mask = 0;
        for (L &l : model) if ((d ? l.from : l.to) == i) { exp.push_back (l.id); int o = d ? l.to : l.from; if (mask & (1 << o)) vp_reach ("two_parallel"); mask |= 1 << o; }
        if (exp.size () >= 2 && mask != (mask & -mask)) vp_reach ("star");
        vp_assert (ids.size () == exp.size (), "connection-count");
        for (int x : exp) vp_assert (cnt (ids, x) == 1, "connections-complete");
        int got = 0, n = 0;
        for (auto &nn : g.neighbors (i, dir)) { int o = g.get_id (nn); vp_assert (!(got & (1 << o)), "neighbors-distinct"); got |= 1 << o; if (++n > 8) break; }
        vp_assert (got == mask, "neighbors-complete");
        // the const view agrees
        const G &cg = g;
        int got2 = 0, c2 = 0;
        for (auto &l : cg.connections (i, dir)) { (void) l; c2++; }
        vp_assert (c2 == (int) exp.size (), "const-connections");
        n = 0;
        for (auto &nn : cg.neighbors (cg.get_node (i), dir)) { got2 |= 1 << cg.get_id (nn); if (++n > 8) break; }
        vp_assert (got2 == mask, "const-neighbors");
      }
  vp_obs_i ("links", (long) g.size_links ());
  for (L &l : model) vp_obs_i ("data", l.data);
  return 0;
}
