// vp-sources: core
// vp-reach: two-origins second-path filtered two-destinations no-path
// vp-bounds: build_pathset / build_shortest_pathset on a 4-node network with 5 point-queue links (plus an unreachable-destination case), arbitrary link lengths (multiples of 1/4 up to 64) and tolls (multiples of 1/4 up to 16) on two links, 0 or 1 alternative-search iterations, one or two origins or destinations, one minimum path length
// vp-time: 240 1200
#include "vp.h"
#include "path.h"
#include <stdexcept>
struct L5 { int id, from, to; };
static const L5 LK[5] = { { 11, 1, 2 }, { 12, 1, 3 }, { 13, 2, 4 }, { 14, 3, 4 }, { 15, 2, 3 } };
static double cst[5];
static void all (int at, int dst, int mask, std::vector<int> &cur, std::vector<std::vector<int>> &out)
{
  if (at == dst) { out.push_back (cur); return; }
  for (int i = 0; i < 5; i++)
    if (LK[i].from == at && !(mask & (1 << LK[i].to)))
      { cur.push_back (i); all (LK[i].to, dst, mask | (1 << LK[i].to), cur, out); cur.pop_back (); }
}
extern "C" int vp_main ()
{
  macposts::Graph g;
  MNM_Node_Factory nf;
  MNM_Link_Factory lf;
  MNM_OD_Factory of;
  bool shortest = vp_choose ("which", 2);
  bool unreachable = vp_choose ("unreachable", 2);
  int iters = shortest || unreachable ? 0 : vp_choose ("iters", 2);
  bool two_o = iters && vp_choose ("two-origins", 2); // a second origin at node 2
  bool two = !shortest && !unreachable && iters == 0 && vp_choose ("two", 2);
  MNM_DMOND *on = dynamic_cast<MNM_DMOND *> (nf.make_node (1, MNM_TYPE_ORIGIN, 1));
  MNM_DMDND *dn = dynamic_cast<MNM_DMDND *> (nf.make_node (4, MNM_TYPE_DEST, 1));
  MNM_DMDND *dn2 = dynamic_cast<MNM_DMDND *> (nf.make_node (3, MNM_TYPE_DEST, 1));
  for (int i = 1; i <= 5; i++) g.add_node (i);
  double len[5];
  for (int i = 0; i < 5; i++)
    {
      g.add_link (LK[i].from, LK[i].to, LK[i].id);
      len[i] = vp_dy ("len", two_o ? 5 : 1, 256, 2);
      MNM_Dlink *l = lf.make_link (LK[i].id, MNM_TYPE_PQ, 1000, 1000, 1, 4, 1, 4, 1);
      l->m_length = len[i];
      l->m_toll = i < 2 ? vp_dy ("toll", 0, 64, 2) : 0;
      cst[i] = shortest ? len[i] : 2 * len[i] + l->m_toll;
    }
  MNM_Origin *o = of.make_origin (1, 1, 1, 1);
  o->m_origin_node = on; on->hook_up_origin (o);
  MNM_Origin *o2 = nullptr;
  if (two_o)
    {
      o2 = of.make_origin (2, 1, 1, 1);
      MNM_DMOND *on2 = dynamic_cast<MNM_DMOND *> (nf.make_node (2, MNM_TYPE_ORIGIN, 1));
      o2->m_origin_node = on2; on2->hook_up_origin (o2);
    }
  MNM_Destination *d = of.make_destination (4);
  d->m_dest_node = dn; dn->hook_up_destination (d);
  if (unreachable) { dn->m_node_ID = 5; }
  MNM_Destination *d2 = nullptr;
  if (two || vp_choose ("extra-destination", 2) * !shortest) { d2 = of.make_destination (3); d2->m_dest_node = dn2; }
  double dem[1] = { 1 };
  o->add_dest_demand (d, dem);
  if (two) o->add_dest_demand (d2, dem);
  if (two_o) o2->add_dest_demand (d, dem);
  double minlen = shortest ? 0 : 1.0;
  Path_Table *t = nullptr;
  bool threw = false;
  try
    {
      t = shortest ? MNM::build_shortest_pathset (g, &of, &lf) : MNM::build_pathset (g, &of, &lf, minlen, iters, 2., 3, 6, 2);
    }
  catch (const std::runtime_error &) { threw = true; }
  if (unreachable) { vp_reach ("no-path"); vp_assert (threw, "unreachable-pair-is-an-error"); return 0; }
  vp_assert (!threw, "reachable-pair-is-not-an-error");
  if (threw) return 0;
  vp_assert (t->size () == (two_o ? 2u : 1u) && t->count (1) == 1 && t->count (2) == (two_o ? 1u : 0u), "one-entry-per-origin");
  bool slow[5] = { false, false, false, false, false };
  for (auto &oe : *t) for (auto &e : *oe.second) if (!e.second->m_path_vec.empty ()) for (int id : e.second->m_path_vec[0]->m_link_vec) slow[id - 11] = true;
  for (auto &oe : *t)
  {
  int org = oe.first;
  if (two_o) vp_reach ("two-origins");
  vp_assert (oe.second->size () == (two ? 2u : 1u), "entries-only-for-pairs-with-demand");
  for (auto &e : *oe.second)
    {
      int dst = e.first;
      std::vector<std::vector<int>> ps;
      std::vector<int> cur;
      all (org, dst, 1 << org, cur, ps);
      auto &pv = e.second->m_path_vec;
      if (two) vp_reach ("two-destinations");
      if (pv.empty ())
        {
          vp_reach ("filtered");
          // only a route no longer than the minimum may be dropped
          int some = 0;
          for (auto &p : ps) { double s = 0; for (int i : p) s += len[i]; some = vp_or (some, s <= minlen); }
          vp_assert (some, "only-short-routes-are-dropped");
        }
      if (pv.size () > 1) vp_reach ("second-path");
      for (size_t k = 0; k < pv.size (); k++)
        {
          MNM_Path *p = pv[k];
          int at = org;
          bool ok = p->m_node_vec.size () == p->m_link_vec.size () + 1 && p->m_node_vec[0] == org;
          double c = 0, ln = 0;
          for (size_t q = 0; ok && q < p->m_link_vec.size (); q++)
            {
              int i = p->m_link_vec[q] - 11;
              ok = LK[i].from == at && p->m_node_vec[q] == at;
              at = LK[i].to; c += cst[i]; ln += len[i];
            }
          vp_assert (ok && at == dst && p->m_node_vec.back () == dst, "stored-route-connects-the-pair");
          if (!ok) return 0;
          vp_assert (ln > minlen || shortest, "stored-route-longer-than-minimum");
          if (!shortest) vp_assert (p->m_buffer_length == 2 && p->m_buffer[0] == 0, "stored-route-has-its-buffer");
          if (k == 0 && iters == 0) for (auto &r : ps) { double s = 0; for (int i : r) s += cst[i]; vp_assert (c <= s, "first-route-is-cheapest"); }
          for (size_t k2 = 0; k2 < k; k2++) vp_assert (!(*pv[k2] == *p), "stored-routes-differ");
        }
      if (iters && !pv.empty ())
        {
          int best = 0;
          for (auto &r : ps) { double s = 0; for (int i : r) s += cst[i]; int all_le = 1; for (auto &r2 : ps) { double s2 = 0; for (int i : r2) s2 += cst[i]; all_le = vp_and (all_le, s <= s2); }
              for (auto *p : pv) { bool same = p->m_link_vec.size () == r.size (); for (size_t q = 0; same && q < r.size (); q++) same = p->m_link_vec[q] == LK[r[q]].id; if (same) best = vp_or (best, all_le); } }
          vp_assert (best, "cheapest-route-kept");
        }
      // the alternatives: the cheapest routes once the links of the first routes are 3 and 6 times as slow
      for (double scale : { 3., 6. })
        if (iters)
          {
            double sc[5];
            for (int i = 0; i < 5; i++) sc[i] = cst[i];
            for (int i = 0; i < 5; i++) if (slow[i]) sc[i] += 2 * len[i] * (scale - 1);
            int found = 0;
            for (auto &r : ps)
              {
                double s = 0, ln = 0;
                for (int i : r) { s += sc[i]; ln += len[i]; }
                int opt = 1;
                for (auto &r2 : ps) { double s2 = 0; for (int i : r2) s2 += sc[i]; opt = vp_and (opt, s <= s2); }
                bool in = false;
                for (auto *p : pv) { bool same = p->m_link_vec.size () == r.size (); for (size_t q = 0; same && q < r.size (); q++) same = p->m_link_vec[q] == LK[r[q]].id; in = in || same; }
                found = vp_or (found, in ? opt : vp_and (opt, ln <= minlen));
              }
            vp_assert (found, "alternative-for-slow-links-kept");
          }
    }
  }
  return 0;
}
