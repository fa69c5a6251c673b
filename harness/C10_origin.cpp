// vp-sources: core
// vp-reach: left waiting all two
// vp-bounds: an origin node with 1-2 point-queue connectors, flow scalar 1 or 2, up to 4 waiting vehicles (thorough: 6) with any mix of first links, supply any multiple of 1/8 up to 4 vehicles, two consecutive intervals, every outcome of the random rounding
// vp-time: 200 900
#include "vp.h"
#include "dnode.h"
#include "dlink.h"
#include "vehicle.h"
#include <vector>
extern "C" int vp_main ()
{
  double sc = 1 << vp_choose ("scalar", 2);
  int no = 1 + vp_choose ("out", 2);
  MNM_DMOND n (5, sc);
  MNM_Dlink_Pq *out[2]; double sup[2];
  for (int j = 0; j < no; j++)
    {
      sup[j] = vp_dy ("supply", 0, sc == 1 ? 32 : 16, 3);
      out[j] = new MNM_Dlink_Pq (20 + j, 1, sup[j], 1, 10, 10, 1, sc); out[j]->install_cumulative_curve (); n.add_out_link (out[j]);
    }
  int k = vp_conc (vp_int ("vehicles", 0, vp_tier () ? 6 : 4));
  std::vector<MNM_Veh *> all[2];
  for (int i = 0; i < k; i++)
    {
      MNM_Veh *v = new MNM_Veh (i, 0);
      int j = no > 1 ? vp_choose ("turn", 2) : 0;
      v->set_next_link (out[j]); v->m_origin = nullptr;
      all[j].push_back (v); n.m_in_veh_queue.push_back (v);
    }
  size_t done[2] = { 0, 0 };
  for (int t = 0; t < 2; t++)
    {
      size_t before[2] = { done[0], done[1] };
      n.evolve (t);
      size_t total = 0;
      for (int j = 0; j < no; j++)
        {
          size_t now = out[j]->m_incoming_array.size ();
          vp_assert (now >= before[j] && now <= all[j].size (), "only-waiting-vehicles-leave");
          for (size_t x = 0; x < now && x < all[j].size (); x++)
            {
              vp_assert (out[j]->m_incoming_array[x] == all[j][x], "first-come-first-served-per-link");
              vp_assert (all[j][x]->get_current_link () == out[j], "on-its-first-link");
            }
          done[j] = now; total += now;
          int m = (int) (now - before[j]), w = (int) (all[j].size () - before[j]);
          vp_assert (m < sup[j] * sc + 1, "at-most-the-rounded-supply");
          if (sup[j] * sc >= w) { if (w) vp_reach ("all"); vp_assert (m == w, "sufficient-supply-lets-everyone-leave"); }
          else vp_assert (m > sup[j] * sc - 1, "scarce-supply-is-used");
          if (m) { vp_reach ("left"); if (t) vp_reach ("two"); }
          vp_assert (out[j]->m_N_in->get_result (t + 1) * sc == now, "entries-are-recorded");
          vp_assert (out[j]->m_N_in->get_result (t) * sc == before[j], "entries-are-recorded-at-the-next-interval");
        }
      vp_assert (n.m_in_veh_queue.size () + total == (size_t) k, "nobody-is-lost");
      if (!n.m_in_veh_queue.empty ()) vp_reach ("waiting");
      // the remaining ones are the last of each link, in order
      size_t p[2] = { done[0], done[1] };
      for (MNM_Veh *v : n.m_in_veh_queue) { int j = v->get_next_link () == out[0] ? 0 : 1; vp_assert (p[j] < all[j].size () && all[j][p[j]] == v, "the-rest-keeps-waiting-in-order"); p[j]++; }
    }
  return 0;
}
