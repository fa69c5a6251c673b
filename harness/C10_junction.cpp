// vp-sources: core
// vp-reach: moved held all-moved two-in three-in split
// vp-bounds: both junction models with 1-3 incoming and 1-2 outgoing links, flow scalar 1 or 2, 6 (thorough: 12) combinations of up to 3 (thorough: 4) waiting vehicles per incoming link with any mix of turns, outgoing supply any multiple of 1/8 up to 2.5 vehicles (thorough: 4) (point-queue links), every outcome of the random rounding and shuffling (arbitrary up to 6 draws in the shortage loop, then a fixed fair sequence)
// vp-land: 6
// vp-time: 300 1800
#include "vp.h"
#include "dnode.h"
#include "dlink.h"
#include "vehicle.h"
#include "path.h"
#include <stdexcept>
#include <vector>
extern "C" int vp_main ()
{
  int grj = vp_choose ("model", 2);
  // in links, out links, waiting vehicles per in link
  static const int CASE[][5] = { { 1, 1, 2, 0 }, { 1, 2, 3, 0 }, { 2, 1, 1, 1 }, { 2, 1, 2, 1 }, { 2, 2, 1, 1 }, { 3, 1, 1, 1, 1 }, { 2, 1, 1, 3 }, { 2, 1, 0, 2 },
                                 { 2, 2, 2, 1 }, { 1, 2, 4, 0 }, { 2, 1, 3, 2 }, { 3, 1, 2, 1, 1 } };
  int ci = vp_choose ("case", vp_tier () ? 12 : 6);
  const int *cs = CASE[ci];
  int ni = cs[0], no = cs[1];
  double sc = ci < (vp_tier () ? 11 : 3) ? 1 << vp_choose ("scalar", 2) : 1;
  MNM_Dnode_Inout *n = grj ? (MNM_Dnode_Inout *) new MNM_Dnode_GRJ (5, sc) : (MNM_Dnode_Inout *) new MNM_Dnode_FWJ (5, sc);
  MNM_Dlink_Pq *in[3], *out[2];
  double sup[2];
  for (int i = 0; i < ni; i++) { in[i] = new MNM_Dlink_Pq (10 + i, 1, 2, 1, 10, 10, 1, sc); in[i]->install_cumulative_curve (); n->add_in_link (in[i]); }
  for (int j = 0; j < no; j++)
    {
      sup[j] = vp_dy ("supply", 0, vp_tier () ? 32 : sc == 1 ? 20 : 10, 3);
      out[j] = new MNM_Dlink_Pq (20 + j, 1, sup[j], 1, 10, 10, 1, sc); out[j]->install_cumulative_curve (); out[j]->install_cumulative_curve_tree (); n->add_out_link (out[j]);
    }
  n->prepare_loading ();
  std::vector<MNM_Veh *> w[3];
  MNM_Path route[2];
  int total = 0, want[2] = { 0, 0 };
  for (int i = 0; i < ni; i++)
    {
      int k = cs[2 + i];
      if (i) vp_reach (i == 2 ? "three-in" : "two-in");
      for (int x = 0; x < k; x++)
        {
          MNM_Veh *v = new MNM_Veh (total++, 0);
          int j = no > 1 ? vp_choose ("turn", no) : 0;
          want[j]++;
          v->set_next_link (out[j]); v->set_current_link (in[i]);
          v->m_path = &route[total % 2]; v->m_assign_interval = x;
          w[i].push_back (v); in[i]->m_finished_array.push_back (v);
        }
    }
  if (want[0] && want[1]) vp_reach ("split");
  int t = 3;
  vp_rand_limit (ni * no + no * 2 + 6);
  bool th = false;
  try { n->evolve (t); } catch (const std::runtime_error &) { th = true; }
  vp_assert (!th, "junction-step-does-not-fail");
  if (th) return 0;
  int moved[3][2] = { { 0, 0 }, { 0, 0 }, { 0, 0 } };
  for (int i = 0; i < ni; i++)
    {
      // what stays keeps its order; per turn the first ones went
      size_t r = 0;
      int stayed[2] = { 0, 0 };
      for (MNM_Veh *v : w[i])
        {
          int j = v->get_next_link () == out[0] ? 0 : 1;
          bool here = r < in[i]->m_finished_array.size () && in[i]->m_finished_array[r] == v;
          int there = 0;
          for (int q = 0; q < no; q++) for (MNM_Veh *z : out[q]->m_incoming_array) if (z == v) there += q == j ? 1 : 100;
          vp_assert ((here ? 1 : 0) + there == 1, "each-vehicle-is-in-exactly-one-place");
          if (here) { r++; stayed[j]++; vp_reach ("held"); vp_assert (v->get_current_link () == in[i], "held-vehicle-stays-on-its-link"); }
          else
            {
              moved[i][j]++; vp_reach ("moved");
              vp_assert (stayed[j] == 0, "first-come-first-served-per-turn");
              vp_assert (v->get_current_link () == out[j], "moved-vehicle-is-on-its-next-link");
            }
        }
      vp_assert (r == in[i]->m_finished_array.size (), "no-vehicle-appears");
      double o = in[i]->m_N_out->get_result (t + 1);
      vp_assert (o * sc == moved[i][0] + moved[i][1], "departures-are-recorded");
      vp_assert (in[i]->m_N_out->get_result (t) == 0, "departures-are-recorded-at-the-next-interval");
    }
  for (int j = 0; j < no; j++)
    {
      int m = moved[0][j] + moved[1][j] + moved[2][j];
      vp_assert ((int) out[j]->m_incoming_array.size () == m, "arrivals-are-the-moved-vehicles");
      vp_assert (m <= sup[j] * sc, "never-more-than-the-supply");
      vp_assert (out[j]->m_N_in->get_result (t + 1) * sc == m, "arrivals-are-recorded");
      vp_assert (out[j]->m_N_in->get_result (t) == 0, "arrivals-are-recorded-at-the-next-interval");
      for (int r = 0; r < 2; r++)
        for (int x = 0; x < 4; x++)
          {
            int k = 0;
            for (MNM_Veh *z : out[j]->m_incoming_array) k += z->m_path == &route[r] && z->m_assign_interval == x;
            auto &rec = out[j]->m_N_in_tree->m_record;
            auto it = rec.find (&route[r]);
            MNM_Cumulative_Curve *cc = it == rec.end () || !it->second.count (x) ? nullptr : it->second[x];
            vp_assert (k ? cc && cc->get_result (t + 1) * sc == k && cc->get_result (t) == 0 : !cc || cc->get_result (t + 1) == 0, "arrivals-are-recorded-per-route-and-departure");
          }
      // vehicles of one incoming link arrive in their order
      int last[3] = { -1, -1, -1 };
      for (MNM_Veh *z : out[j]->m_incoming_array)
        {
          int i = -1;
          for (int q = 0; q < ni; q++) for (MNM_Veh *v : w[q]) if (v == z) i = q;
          if (i >= 0) { vp_assert (z->m_veh_ID > last[i], "arrival-order-per-incoming-link"); last[i] = z->m_veh_ID; }
        }
      if (!grj)
        {
          // no needless blocking: with enough supply everybody goes, otherwise the supply is used up to rounding
          if (sup[j] * sc >= want[j] + 0.001) { if (want[j]) vp_reach ("all-moved"); int tw = want[j]; vp_assert (ni == 1 || tw == 1 || tw == 2 || tw == 4 ? m == tw : m >= tw - ni, "sufficient-supply-lets-everyone-pass"); }
          else vp_assert (m > sup[j] * sc - ni - 0.001, "scarce-supply-is-used-up-to-rounding");
        }
    }
  vp_obs_i ("moved", moved[0][0] + moved[0][1] + moved[1][0] + moved[1][1] + moved[2][0] + moved[2][1]);
  return 0;
}
