// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: moved held all-moved two-in split truck car bus
// vp-bounds: the two-class junction with 1-2 incoming and 1-2 outgoing links, flow scalar 1 or 2, trucks worth 1, 1.5 or 2 cars, up to 3 waiting vehicles per incoming link with any mix of classes and turns, outgoing supply any multiple of 1/8 up to 3 vehicles, every outcome of the random shuffling
// vp-time: 240 1800
#include "vp.h"
#include "multiclass.h"
#include <stdexcept>
#include <vector>
extern "C" int vp_main ()
{
  static const int CASE[][4] = { { 1, 1, 3, 0 }, { 1, 2, 3, 0 }, { 2, 1, 2, 1 }, { 2, 2, 1, 1 }, { 2, 1, 1, 3 }, { 2, 2, 2, 1 } };
  int ci = vp_choose ("case", vp_tier () ? 6 : 4);
  const int *cs = CASE[ci];
  int ni = cs[0], no = cs[1];
  double sc = 1 << vp_choose ("scalar", 2);
  static const double F[] = { 1.5, 2, 1 };
  double fac = F[vp_choose ("factor", vp_tier () ? 3 : 2)];
  MNM_Dnode_FWJ_Multiclass n (5, sc, fac);
  MNM_Dlink_Pq_Multiclass *in[2], *out[2];
  double sup[2];
  for (int i = 0; i < ni; i++) { in[i] = new MNM_Dlink_Pq_Multiclass (10 + i, 1, 10, 1, 1, 2, 2, 10, 10, 1, fac, sc); in[i]->install_cumulative_curve_multiclass (); n.add_in_link (in[i]); }
  for (int j = 0; j < no; j++)
    {
      sup[j] = vp_dy ("supply", 0, sc == 1 ? 40 : 24, 3);
      out[j] = new MNM_Dlink_Pq_Multiclass (20 + j, 1, 10, 1, 1, sup[j], sup[j], 10, 10, 1, fac, sc);
      out[j]->install_cumulative_curve_multiclass (); out[j]->install_cumulative_curve_tree_multiclass (); n.add_out_link (out[j]);
    }
  n.prepare_loading ();
  std::vector<MNM_Veh *> w[2];
  MNM_Path route[2];
  double dem[2][2] = { { 0, 0 }, { 0, 0 } };
  int total = 0, nb = vp_choose ("bus", 4);
  for (int i = 0; i < ni; i++)
    {
      if (i) vp_reach ("two-in");
      for (int x = 0; x < cs[2 + i]; x++)
        {
          int cl = vp_choose ("class", 2), j = no > 1 ? vp_choose ("turn", no) : 0;
          MNM_Veh *v = new MNM_Veh_Multiclass (total++, cl, 0);
          if (cl && nb == total) { v->m_bus_route_ID = 3; vp_reach ("bus"); }
          dem[i][j] += cl ? fac : 1;
          vp_reach (cl ? "truck" : "car");
          v->set_next_link (out[j]); v->set_current_link (in[i]);
          v->m_path = &route[total % 2]; v->m_assign_interval = x;
          w[i].push_back (v); in[i]->m_finished_array.push_back (v);
        }
    }
  if (no > 1 && dem[0][0] > 0 && dem[0][1] > 0) vp_reach ("split");
  int t = 3;
  bool th = false;
  try { n.evolve (t); } catch (const std::runtime_error &) { th = true; }
  vp_assert (!th, "junction-step-does-not-fail");
  if (th) return 0;
  int mv[2][2][2] = { { { 0, 0 }, { 0, 0 } }, { { 0, 0 }, { 0, 0 } } }, bus[2][2] = { { 0, 0 }, { 0, 0 } };
  for (int i = 0; i < ni; i++)
    {
      size_t r = 0;
      int stayed[2] = { 0, 0 };
      double eq[2] = { 0, 0 }, last[2] = { 0, 0 };
      for (MNM_Veh *v : w[i])
        {
          int j = v->get_next_link () == out[0] ? 0 : 1, cl = v->get_class ();
          bool here = r < in[i]->m_finished_array.size () && in[i]->m_finished_array[r] == v;
          int there = 0;
          for (int q = 0; q < no; q++) for (MNM_Veh *z : out[q]->m_incoming_array) if (z == v) there += q == j ? 1 : 100;
          vp_assert ((here ? 1 : 0) + there == 1, "each-vehicle-is-in-exactly-one-place");
          if (here) { r++; stayed[j]++; vp_reach ("held"); vp_assert (v->get_current_link () == in[i], "held-vehicle-stays-on-its-link"); }
          else
            {
              if (v->m_bus_route_ID == -1) mv[i][j][cl]++; else bus[i][j]++;
              last[j] = cl ? fac : 1; eq[j] += last[j]; vp_reach ("moved");
              vp_assert (stayed[j] == 0, "first-come-first-served-per-turn");
              vp_assert (v->get_current_link () == out[j], "moved-vehicle-is-on-its-next-link");
            }
        }
      vp_assert (r == in[i]->m_finished_array.size (), "no-vehicle-appears");
      vp_assert (in[i]->m_N_out_car->get_result (t + 1) * sc == mv[i][0][0] + mv[i][1][0], "car-departures-are-recorded");
      vp_assert (in[i]->m_N_out_truck->get_result (t + 1) * sc == mv[i][0][1] + mv[i][1][1], "truck-departures-are-recorded");
      vp_assert (in[i]->m_N_out_car->get_result (t) == 0 && in[i]->m_N_out_truck->get_result (t) == 0, "departures-are-recorded-at-the-next-interval");
      for (int j = 0; j < no; j++)
        {
          // everyone when the supply suffices, otherwise the fewest that use up the share of the supply
          double d = dem[0][j] + dem[1][j];
          if (dem[i][j] <= 0) continue;
          if (vp_conc (sup[j] * sc >= d)) { vp_reach ("all-moved"); vp_assert (eq[j] == dem[i][j], "sufficient-supply-lets-everyone-pass"); }
          else
            {
              double share = sup[j] * sc * (dem[i][j] / d);
              vp_assert (eq[j] >= share - 1e-6, "scarce-supply-is-used");
              vp_assert (eq[j] - last[j] < share + 1e-6, "at-most-one-vehicle-more-than-the-share-of-the-supply");
            }
        }
    }
  for (int j = 0; j < no; j++)
    {
      int mc = mv[0][j][0] + mv[1][j][0], mt = mv[0][j][1] + mv[1][j][1], mb = bus[0][j] + bus[1][j];
      vp_assert ((int) out[j]->m_incoming_array.size () == mc + mt + mb, "arrivals-are-the-moved-vehicles");
      vp_assert (out[j]->m_N_in_car->get_result (t + 1) * sc == mc && out[j]->m_N_in_truck->get_result (t + 1) * sc == mt, "arrivals-are-recorded-by-class");
      vp_assert (out[j]->m_N_in_car->get_result (t) == 0 && out[j]->m_N_in_truck->get_result (t) == 0, "arrivals-are-recorded-at-the-next-interval");
      int last[2] = { -1, -1 };
      for (MNM_Veh *z : out[j]->m_incoming_array)
        {
          int i = z->m_veh_ID >= cs[2];
          vp_assert (z->m_veh_ID > last[i], "arrival-order-per-incoming-link"); last[i] = z->m_veh_ID;
        }
      for (int cl = 0; cl < 2; cl++)
        for (int r = 0; r < 2; r++)
          for (int x = 0; x < 3; x++)
            {
              int k = 0;
              for (MNM_Veh *z : out[j]->m_incoming_array) k += z->get_class () == cl && z->m_path == &route[r] && z->m_assign_interval == x;
              auto &rec = (cl ? out[j]->m_N_in_tree_truck : out[j]->m_N_in_tree_car)->m_record;
              auto it = rec.find (&route[r]);
              MNM_Cumulative_Curve *cc = it == rec.end () || !it->second.count (x) ? nullptr : it->second[x];
              vp_assert (k ? cc && cc->get_result (t + 1) * sc == k && cc->get_result (t) == 0 : !cc || cc->get_result (t + 1) == 0, "arrivals-are-recorded-per-class-route-and-departure");
            }
    }
  return 0;
}
