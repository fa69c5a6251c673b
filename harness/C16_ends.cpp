// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: left waiting all arrived foreign finished kept
// vp-bounds: a two-class origin node with 1-2 connectors, up to 4 waiting cars and trucks with any mix of first links, supply any multiple of 1/8 up to 4 vehicles, two intervals, every outcome of the rounding; a destination node with 2 links and up to 2 vehicles each; up to 3 vehicles of any class created, finished and removed
// vp-time: 200 900
#include "vp.h"
#include "multiclass.h"
#include <stdexcept>
#include <vector>
static int origin ()
{
  double sc = 1 << vp_choose ("scalar", 2);
  int no = 1 + vp_choose ("out", 2);
  MNM_DMOND_Multiclass n (5, sc, 2);
  MNM_Dlink_Pq_Multiclass *out[2]; double sup[2];
  for (int j = 0; j < no; j++)
    {
      sup[j] = vp_dy ("supply", 0, sc == 1 ? 32 : 16, 3);
      out[j] = new MNM_Dlink_Pq_Multiclass (20 + j, 1, 10, 1, 1, sup[j], sup[j], 10, 10, 1, 2, sc); out[j]->install_cumulative_curve_multiclass (); n.add_out_link (out[j]);
    }
  int k = vp_choose ("vehicles", vp_tier () ? 5 : 4);
  std::vector<MNM_Veh *> all[2];
  for (int i = 0; i < k; i++)
    {
      int cl = vp_choose ("class", 2), j = no > 1 ? vp_choose ("turn", 2) : 0;
      MNM_Veh *v = new MNM_Veh_Multiclass (i, cl, 0);
      v->set_next_link (out[j]); v->m_origin = nullptr;
      all[j].push_back (v); n.m_in_veh_queue.push_back (v);
    }
  size_t done[2] = { 0, 0 };
  for (int t = 0; t < 2; t++)
    {
      size_t before[2] = { done[0], done[1] };
      n.evolve (t);
      size_t total = 0;
      for (int j = 0; j < no; j++)
        {
          size_t now = out[j]->m_incoming_array.size ();
          vp_assert (now >= before[j] && now <= all[j].size (), "only-waiting-vehicles-leave");
          int cl[2] = { 0, 0 }, bc[2] = { 0, 0 };
          for (size_t x = 0; x < now && x < all[j].size (); x++)
            {
              vp_assert (out[j]->m_incoming_array[x] == all[j][x], "first-come-first-served-per-link");
              vp_assert (all[j][x]->get_current_link () == out[j], "on-its-first-link");
              cl[all[j][x]->get_class ()]++; if (x < before[j]) bc[all[j][x]->get_class ()]++;
            }
          done[j] = now; total += now;
          int m = (int) (now - before[j]), w = (int) (all[j].size () - before[j]);
          vp_assert (m < sup[j] * sc + 1, "at-most-the-rounded-supply");
          if (vp_conc (sup[j] * sc >= w)) { if (w) vp_reach ("all"); vp_assert (m == w, "sufficient-supply-lets-everyone-leave"); }
          else vp_assert (m > sup[j] * sc - 1, "scarce-supply-is-used");
          if (m) vp_reach ("left");
          vp_assert (out[j]->m_N_in_car->get_result (t + 1) * sc == cl[0] && out[j]->m_N_in_truck->get_result (t + 1) * sc == cl[1], "entries-are-recorded-by-class");
          vp_assert (out[j]->m_N_in_car->get_result (t) * sc == bc[0] && out[j]->m_N_in_truck->get_result (t) * sc == bc[1], "entries-are-recorded-at-the-next-interval");
        }
      vp_assert (n.m_in_veh_queue.size () + total == (size_t) k, "nobody-is-lost");
      if (!n.m_in_veh_queue.empty ()) vp_reach ("waiting");
      size_t p[2] = { done[0], done[1] };
      for (MNM_Veh *v : n.m_in_veh_queue) { int j = v->get_next_link () == out[0] ? 0 : 1; vp_assert (p[j] < all[j].size () && all[j][p[j]] == v, "the-rest-keeps-waiting-in-order"); p[j]++; }
    }
  return 0;
}
static int dest ()
{
  double sc = 2;
  MNM_DMDND_Multiclass nd (5, sc, 2);
  MNM_Dlink_Pq_Multiclass *L[2];
  MNM_Veh *v[4]; int n = 0, c[2][2] = { { 0, 0 }, { 0, 0 } }; bool bad = false;
  for (int k = 0; k < 2; k++)
    {
      L[k] = new MNM_Dlink_Pq_Multiclass (20 + k, 1, 10, 1, 1, 1, 1, 10, 10, 1, 2, sc); L[k]->install_cumulative_curve_multiclass (); nd.add_in_link (L[k]);
      int w = vp_choose ("waiting", 3);
      for (int i = 0; i < w; i++)
        {
          int cl = vp_choose ("class", 2);
          v[n] = new MNM_Veh_Multiclass (n, cl, 0); v[n]->set_current_link (L[k]); v[n]->set_next_link (nullptr);
          if (i == 1 && k == 1 && vp_choose ("wrong", 2)) { v[n]->set_next_link (L[0]); bad = true; }
          L[k]->m_finished_array.push_back (v[n]); n++; c[k][cl]++;
        }
    }
  int t = vp_int ("t", 0, 100);
  bool th = false;
  try { nd.evolve (t); } catch (const std::runtime_error &) { th = true; }
  vp_assert (th == bad, "only-arriving-vehicles-are-taken");
  if (th) { vp_reach ("foreign"); return 0; }
  vp_assert (L[0]->m_finished_array.empty () && L[1]->m_finished_array.empty () && (int) nd.m_out_veh_queue.size () == n, "everyone-arriving-is-taken");
  for (int i = 0; i < n; i++) { vp_assert (nd.m_out_veh_queue[i] == v[i] && v[i]->get_current_link () == nullptr, "arrived-in-order"); vp_reach ("arrived"); }
  for (int k = 0; k < 2; k++) vp_assert (L[k]->m_N_out_car->get_result (t + 1) * sc == c[k][0] && L[k]->m_N_out_truck->get_result (t + 1) * sc == c[k][1], "arrivals-are-recorded-by-class");
  return 0;
}
static int account ()
{
  MNM_Veh_Factory_Multiclass f;
  MNM_Veh *v[3]; int st[3], cl[3], n = vp_choose ("n", 3) + 1, made[2] = { 0, 0 }, fin[2] = { 0, 0 }; double tot[2] = { 0, 0 };
  bool del = vp_choose ("delete", 2);
  vp_reach (del ? "finished" : "kept");
  for (int i = 0; i < n; i++)
    {
      st[i] = vp_int ("start", 0, 6); cl[i] = vp_choose ("class", 2); made[cl[i]]++;
      v[i] = f.make_veh_multiclass (st[i], MNM_TYPE_STATIC, cl[i]);
      vp_assert (v[i]->m_start_time == st[i] && v[i]->m_veh_ID == i + 1 && v[i]->get_class () == cl[i], "vehicle-identity");
    }
  int gone = 0;
  for (int i = 0; i < n; i++)
    {
      if (!vp_choose ("finish", 2)) continue;
      int t = vp_int ("end", 7, 20);
      v[i]->finish (t); fin[cl[i]]++; tot[cl[i]] += t - st[i]; gone++;
      f.remove_finished_veh (v[i], del);
      vp_assert (f.m_num_car == made[0] && f.m_num_truck == made[1] && f.m_num_veh == n, "created-by-class");
      vp_assert (f.m_finished_car == fin[0] && f.m_finished_truck == fin[1] && f.m_finished == gone, "finished-by-class");
      vp_assert (f.m_enroute_car == made[0] - fin[0] && f.m_enroute_truck == made[1] - fin[1] && f.m_enroute == n - gone, "enroute-by-class");
      vp_assert (f.m_total_time_car == tot[0] && f.m_total_time_truck == tot[1] && f.m_total_time == tot[0] + tot[1], "total-time-by-class");
      vp_assert ((int) f.m_veh_map.size () == (del ? n - gone : n), "map-holds-the-remaining-vehicles");
    }
  return 0;
}
extern "C" int vp_main ()
{
  switch (vp_choose ("what", 3)) { case 0: return origin (); case 1: return dest (); default: return account (); }
}
