// vp-sources: core
// vp-reach: full throttled early-blocked finished
// vp-bounds: ten parameterisations of the four link models plus very short ones, 4 intervals (thorough: 5), each with any number of arrivals up to 3 within the reported supply and any number of departures, every outcome of the random rounding
// vp-time: 300 1800
#include "links_common.h"
static const LinkCfg X[] = {
  { 2, 0.0625, 0.5, 1, 32, 16, 4, 1, "lq-shorter-than-one-interval" },
  { 3, 0.03125, 0.5, 1, 128, 16, 4, 1, "ltm-tight" },
  { 3, 0.125, 0.0625, 1, 128, 16, 4, 2, "ltm-capacity-below-one" },
  { 0, 0.125, 0.0625, 1, 128, 16, 4, 2, "ctm-capacity-below-one" },
};
extern "C" int vp_main ()
{
  int k = vp_choose ("link", NLCFG + 4);
  const LinkCfg &c = k < NLCFG ? LCFG[k] : X[k - NLCFG];
  MNM_Link_Factory f;
  MNM_Dlink *l = make (c, f);
  MNM_Dlink_Pq nextlink (8, 1, 1, 1, 10, 10, 1, 1);
  double cap = c.flow * c.lanes * c.unit;
  if (c.type != 1 && cap * c.scalar < 1) cap = 1 / c.scalar; // lets one vehicle through
  double hold = c.hold * c.lanes * c.length;
  double ffi = c.length / (c.ffs * c.unit); // free-flow time in intervals
  int ff = 0;
  if (c.type != 3)
    {
      ff = l->get_link_freeflow_tt_loading ();
      vp_assert (ff >= 1, "free-flow-time-at-least-one-interval");
      vp_assert (ff - ffi < 1 && (ffi < 1 || ffi - ff < 1), "free-flow-time-in-loading-intervals");
    }
  if (c.type == 3) ff = (int) (ffi < 1 ? 1 : ffi);
  if (c.type == 2) ff = 0; // the link-queue model is a pool: no minimum time
  std::vector<int> born;
  int left = 0, inside = 0;
  int T = vp_tier () ? 5 : 4;
  for (int t = 0; t < T; t++)
    {
      int ready = (int) l->m_finished_array.size ();
      int take = vp_int ("take", 0, ready);
      for (int i = 0; i < take; i++)
        {
          MNM_Veh *v = l->m_finished_array.front ();
          l->m_finished_array.pop_front ();
          vp_assert (t - born[v->m_veh_ID] >= ff, "nobody-is-faster-than-free-flow");
          left++; inside--;
        }
      double s = l->get_link_supply ();
      vp_assert (s >= 0, "supply-non-negative");
      vp_assert (s <= cap + 1e-9, "supply-at-most-capacity");
      if (c.type != 1)
        {
          // room for everyone who is allowed in (models with a finite storage)
          if (s < cap - 1e-9) vp_reach ("throttled");
          if (inside >= hold * c.scalar - 1e-9) { vp_reach ("full"); vp_assert (s <= 1e-9, "no-supply-when-full"); }
        }
      else vp_assert (s >= cap - 1e-9, "point-queue-supply-is-capacity");
      int n = (int) (s * c.scalar); if (n > 3) n = 3;
      int a = n > 0 ? vp_int ("arrive", 0, n) : 0;
      for (int i = 0; i < a; i++)
        {
          MNM_Veh *v = new MNM_Veh ((int) born.size (), t);
          v->set_next_link (&nextlink); v->set_current_link (l);
          born.push_back (t);
          l->m_incoming_array.push_back (v);
        }
      inside += a;
      bool th = false;
      try { l->clear_incoming_array (t); l->evolve (t); } catch (const std::runtime_error &) { th = true; }
      vp_assert (!th, "arrivals-within-supply-never-fail");
      if (th) return 0;
      if (c.type == 3) vp_assert (inside <= hold * c.scalar + 1e-9, "never-more-than-the-storage");
      int fin = (int) l->m_finished_array.size ();
      if (fin) vp_reach ("finished");
      // what waits at the exit was there long enough
      for (int i = 0; i < fin; i++)
        vp_assert (t + 1 - born[l->m_finished_array[i]->m_veh_ID] >= ff, "nobody-reaches-the-exit-early");
      if (take < ready) vp_reach ("early-blocked");
    }
  vp_obs_i ("left", (long) left);
  return 0;
}
