// vp-sources: core
// vp-reach: moved queued blocked drained
// vp-bounds: ten parameterisations of the four link models (cell transmission with 1-3 cells, point queue, link queue, link transmission; integer and fractional capacities; flow scalar 1 or 2), 4 intervals (thorough: 5), each interval with any number of arrivals up to 3 within the reported supply and any number of departures, every outcome of the random rounding; then drained completely (cell and point-queue models)
// vp-time: 300 1800
#include "links_common.h"
extern "C" int vp_main ()
{
  const LinkCfg &c = LCFG[vp_choose ("link", NLCFG)];
  MNM_Link_Factory f;
  MNM_Dlink *l = make (c, f);
  MNM_Dlink_Pq nextlink (8, 1, 1, 1, 10, 10, 1, 1);
  std::vector<MNM_Veh *> in, out;
  int T = vp_tier () ? 5 : 4;
  bool drain = c.type <= 1;
  int total = T + (drain ? 14 : 0);
  for (int t = 0; t < total; t++)
    {
      // downstream node takes some of the vehicles waiting at the end
      int ready = (int) l->m_finished_array.size ();
      int take = t < T ? vp_int ("take", 0, ready) : ready;
      if (take < ready) vp_reach ("blocked");
      for (int i = 0; i < take; i++) { out.push_back (l->m_finished_array.front ()); l->m_finished_array.pop_front (); vp_reach ("moved"); }
      int a = 0;
      if (t < T)
        {
          double s = l->get_link_supply () * c.scalar;
          vp_assert (s >= 0, "supply-non-negative");
          int cap = (int) s; if (cap > 3) cap = 3;
          if (cap > 0) a = vp_int ("arrive", 0, cap);
          for (int i = 0; i < a; i++)
            {
              MNM_Veh *v = new MNM_Veh ((int) in.size () + 1, t);
              v->set_next_link (&nextlink); v->set_current_link (l);
              v->m_label = in.size () % 2;
              in.push_back (v);
              l->m_incoming_array.push_back (v);
            }
        }
      bool th = false;
      try { l->clear_incoming_array (t); } catch (const std::runtime_error &) { th = true; }
      vp_assert (!th, "arrivals-within-supply-are-accepted");
      if (th) return 0;
      try { l->evolve (t); } catch (const std::runtime_error &) { th = true; }
      vp_assert (!th, "evolving-does-not-fail");
      if (th) return 0;
      // nobody disappears or is duplicated: reported volume = entered - left
      double onlink = (double) in.size () - (double) out.size () - (double) l->m_incoming_array.size ();
      double flow = l->get_link_flow () * c.scalar;
      vp_assert (flow == onlink, "reported-volume-is-entered-minus-left");
      std::vector<TFlt> em = l->get_link_flow_emission (1);
      double labelled = 0;
      for (size_t i = out.size (); i < in.size (); i++) labelled += i % 2;
      vp_assert (em.size () == 2 && (em[0] + em[1]) * c.scalar == onlink, "volume-by-label-adds-up");
      if (em.size () == 2) vp_assert (em[1] * c.scalar == labelled, "volume-by-label-counts-the-label");
      if ((int) l->m_finished_array.size () < (int) onlink) vp_reach ("queued");
      // order is preserved
      bool order = true;
      for (size_t i = 0; i < out.size (); i++) order = order && out[i] == in[i];
      for (size_t i = 0; i < l->m_finished_array.size (); i++) order = order && out.size () + i < in.size () && l->m_finished_array[i] == in[out.size () + i];
      vp_assert (order, "vehicles-leave-in-the-order-they-entered");
      if (!order) return 0;
    }
  if (drain)
    {
      for (MNM_Veh *v : l->m_finished_array) out.push_back (v);
      vp_assert (out.size () == in.size (), "every-vehicle-gets-through");
      vp_reach ("drained");
    }
  vp_obs_i ("out", (long) out.size ());
  return 0;
}
