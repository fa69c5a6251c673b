// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: car truck blocked drained mixed
// vp-bounds: seven parameterisations of the two-class cell transmission (1-3 cells), link queue and point queue models; 3 intervals (thorough: 4), each with any number of cars (0-2) and trucks (0-1) arriving in either order and any number of departures, every outcome of random rounding and of the random order at the exit; then drained (cell and point-queue models)
// vp-time: 200 1800
#include "mclinks_common.h"
extern "C" int vp_main ()
{
  const McCfg &c = MC[vp_choose ("link", NMC)];
  MNM_Link_Factory_Multiclass f;
  MNM_Dlink_Multiclass *l = make_mc (c, f);
  MNM_Dlink_Pq nextlink (8, 1, 1, 1, 10, 10, 1, 1);
  int ffc = l->get_link_freeflow_tt_loading_car (), fft = l->get_link_freeflow_tt_loading_truck ();
  double ffi = c.length / (c.vc * c.unit);
  vp_assert (ffc >= 1 && ffc - ffi < 1 && (ffi < 1 || ffi - ffc < 1), "free-flow-time-in-loading-intervals");
  if (c.type < 2) { double fti = (ffi < 1 && c.type == 0 ? 1 : ffi) * c.vc / c.vt; vp_assert (fft - fti < 1 && fti - fft < 2 && fft >= ffc, "truck-free-flow-time-in-loading-intervals"); }
  std::vector<MNM_Veh *> in[2], out[2], all, done;
  int T = vp_tier () ? 4 : 3;
  int total = T + (c.type == 1 ? 0 : 5);
  vp_rand_limit (vp_tier () ? 8 : 4);
  for (int t = 0; t < total; t++)
    {
      int ready = (int) l->m_finished_array.size ();
      int take = t < T && ready ? (vp_tier () ? vp_int ("take", 0, ready) : vp_choose ("take", 2) * ready) : ready;
      if (take < ready) vp_reach ("blocked");
      for (int i = 0; i < take; i++) { MNM_Veh *v = l->m_finished_array.front (); l->m_finished_array.pop_front (); done.push_back (v); out[v->get_class ()].push_back (v); }
      if (t < T)
        {
          int nc = vp_choose ("cars", 3), nt = vp_choose ("trucks", 2);
          double s = l->get_link_supply () * c.scalar;
          vp_assert (s >= 0, "supply-non-negative");
          if (c.type == 2) vp_assume (nc + nt <= s);
          bool first = c.type == 2 && nc + nt > 1 && nt ? vp_choose ("truck-first", 2) : 0;
          for (int i = 0; i < nc + nt; i++)
            {
              int cl = first ? i < nt : i >= nc;
              MNM_Veh *v = new MNM_Veh_Multiclass ((int) all.size () + 1, cl, t);
              v->set_next_link (&nextlink); v->set_current_link (l);
              v->m_label = all.size () % 2;
              in[cl].push_back (v); all.push_back (v);
              l->m_incoming_array.push_back (v);
              vp_reach (cl ? "truck" : "car");
              if (nc && nt) vp_reach ("mixed");
            }
        }
      bool th = false;
      try { l->clear_incoming_array (t); l->evolve (t); } catch (const std::runtime_error &) { th = true; }
      vp_assert (!th, "evolving-does-not-fail");
      if (th) return 0;
      vp_assert (l->m_incoming_array.empty (), "arrivals-are-accepted");
      int on[2], lab[2] = { 0, 0 };
      for (int k = 0; k < 2; k++)
        {
          on[k] = (int) in[k].size () - (int) out[k].size ();
          for (size_t i = out[k].size (); i < in[k].size (); i++) lab[k] += in[k][i]->m_label;
        }
      vp_assert (l->get_link_flow_car () * c.scalar == on[0], "reported-car-volume-is-entered-minus-left");
      vp_assert (l->get_link_flow_truck () * c.scalar == on[1], "reported-truck-volume-is-entered-minus-left");
      vp_assert (l->get_link_flow () * c.scalar == on[0] + on[1], "reported-volume-is-entered-minus-left");
      std::vector<TFlt> ec = l->get_link_flow_emission_car (1), et = l->get_link_flow_emission_truck (1);
      vp_assert (ec[1] * c.scalar == lab[0] && (ec[0] + ec[1]) * c.scalar == on[0], "car-volume-by-label");
      vp_assert (et[1] * c.scalar == lab[1] && (et[0] + et[1]) * c.scalar == on[1], "truck-volume-by-label");
      // order within a class is preserved, nobody is faster than free flow
      bool order = true, fast = false;
      size_t k2[2] = { out[0].size (), out[1].size () };
      for (int k = 0; k < 2; k++) for (size_t i = 0; i < out[k].size (); i++) order = order && out[k][i] == in[k][i];
      for (MNM_Veh *v : l->m_finished_array)
        {
          int k = v->get_class ();
          order = order && k2[k] < in[k].size () && v == in[k][k2[k]]; k2[k]++;
          if (c.type != 1 && t - (int) v->m_start_time + 1 < ffc) fast = true;
        }
      vp_assert (order, "vehicles-of-a-class-leave-in-the-order-they-entered");
      if (c.type == 2)
        {
          bool o = true; size_t n = 0;
          for (MNM_Veh *v : done) o = o && v == all[n++];
          for (MNM_Veh *v : l->m_finished_array) o = o && v == all[n++];
          vp_assert (o, "point-queue-keeps-the-order-of-all");
          for (; n < all.size (); n++) if (t - (int) all[n]->m_start_time + 1 >= ffc) o = false;
          vp_assert (o, "point-queue-time-is-free-flow");
        }
      vp_assert (!fast, "nobody-is-faster-than-free-flow");
      if (!order) return 0;
    }
  if (c.type != 1)
    {
      // cars are only held up by the exit once the exit is free
      vp_reach ("drained");
      if (c.type == 2) vp_assert (l->m_finished_array.size () + done.size () == all.size (), "every-vehicle-gets-through");
    }
  vp_obs_i ("out", (long) done.size ());
  return 0;
}
