// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker multimodal
// vp-reach: alight board continue full left-behind released passing second-held
// vp-bounds: one explicit bus of capacity 1-3 at one stop, flow scalar 1 or 2 (the passing buses of a group do not stop), up to 3 (thorough 4) passengers on board who ride on or get off, up to 3 (4) waiting, boarding and alighting rates of 1-2 per step, minimum dwell 0-2, lost time 0-3, plain and park-and-ride passengers; one random draw of the shuffles free, then a fixed sequence; simulated step by step until the bus leaves
// vp-time: 400 1500
#include "mm_common.h"
static const int IN = 101, OUT = 102, BOARD = 103, ALIGHT = 104, WALK = 105;
extern "C" int vp_main ()
{
  int big = (1 + vp_tier ());
  vp_rand_limit (big);
  int fs = 1 + vp_choose ("flow-scalar", 2);
  MNM_Transit_Link_Factory tf;
  MNM_Busstop_Factory bf;
  MNM_Parking_Lot_Factory pf;
  MNM_OD_Factory of;
  MNM_Node_Factory nf;
  macposts::Graph g;
  auto *in_l = dynamic_cast<MNM_Bus_Link *> (tf.make_transit_link (IN, MNM_TYPE_BUS_MULTIMODAL, "", "bus_stop", "bus_stop", 1, 2, 60, 5));
  auto *out_l = dynamic_cast<MNM_Bus_Link *> (tf.make_transit_link (OUT, MNM_TYPE_BUS_MULTIMODAL, "", "bus_stop", "bus_stop", 2, 3, 60, 5));
  auto *bo = dynamic_cast<MNM_Walking_Link *> (tf.make_transit_link (BOARD, MNM_TYPE_WALKING_MULTIMODAL, "boarding", "bus_stop_physical", "bus_stop_virtual", 20, 2, 1, 5));
  auto *al = dynamic_cast<MNM_Walking_Link *> (tf.make_transit_link (ALIGHT, MNM_TYPE_WALKING_MULTIMODAL, "alighting", "bus_stop_virtual", "bus_stop_physical", 2, 20, 1, 5));
  tf.make_transit_link (WALK, MNM_TYPE_WALKING_MULTIMODAL, "normal", "bus_stop_physical", "destination", 20, 40, 30, 5);
  in_l->m_route_ID = out_l->m_route_ID = 7;
  auto *stop = dynamic_cast<MNM_Busstop_Virtual *> (bf.make_busstop (2, 11, 10, fs, "virtual"));
  stop->m_route_ID = 7;
  stop->m_bus_in_link = in_l; stop->m_bus_out_link = out_l; stop->m_boarding_link = bo; stop->m_alighting_link = al;
  MNM_Routing_PassengerBusTransit_Fixed routing (g, &of, &nf, &bf, &pf, &tf, nullptr, -1, -1);
  stop->m_routing = routing_of (&routing);
  for (MNM_Transit_Link *l : { (MNM_Transit_Link *) in_l, (MNM_Transit_Link *) out_l, (MNM_Transit_Link *) bo, (MNM_Transit_Link *) al }) { l->install_cumulative_curve_tree (); }

  int dwell = vp_int ("min-dwell", 0, 2), lost = vp_int ("lost", 0, 3);
  int maxA = vp_int ("max-alight", 1, 2), maxB = vp_int ("max-board", 1, 2);
  int cap = 1 + vp_choose ("capacity", 3);
  MNM_Veh_Factory_Multimodal vf (cap, dwell, lost, maxA, maxB);
  MNM_Passenger_Factory paf;
  MNM_Path *plain = new MNM_Path ();
  MNM_PnR_Path *pnr = new MNM_PnR_Path (5, 1, 1, nullptr, nullptr);
  auto passenger = [&] (std::vector<int> rest) {
    MNM_Passenger *p = paf.make_passenger (0, MNM_TYPE_STATIC);
    p->m_assign_interval = 0;
    p->m_pnr = paf.m_num_passenger == 2;
    if (p->m_pnr) p->m_pnr_path = pnr; else p->m_transit_path = plain;
    std::deque<TInt> q (rest.begin (), rest.end ());
    routing.add_passenger_path (p, &q);
    return p;
  };
  std::vector<MNM_Passenger *> off, ride, wait;
  int n0 = vp_choose ("on-board", 3 + big);
  if (n0 > cap * fs) return 0;
  int n1 = vp_choose ("waiting", 3 + big);
  std::deque<MNM_Veh *> from, held;
  int t = 3;
  // a bus of the group that only passes (flow scalar 2)
  if (fs == 2)
    {
      MNM_Veh_Multimodal *ghost = vf.make_veh_multimodal (0, MNM_TYPE_STATIC, 1, cap, 7, false);
      from.push_back (ghost);
      stop->receive_bus (t, ghost);
      bool h = stop->hold_bus (ghost, ghost, &from, &held, fs);
      vp_assert (!h && from.size () == 1 && held.empty (), "only-one-bus-of-a-group-stops");
      vp_reach ("passing");
      stop->release_bus (t, ghost);
      from.pop_front ();
      vp_assert (stop->m_bus_queue.empty () && ghost->m_passenger_pool.empty (), "passing-bus-leaves-at-once");
    }
  double buses_in = last (stop->m_N_in_bus), buses_out = last (stop->m_N_out_bus);
  MNM_Veh_Multimodal *bus = vf.make_veh_multimodal (0, MNM_TYPE_STATIC, 1, cap, 7, false);
  bus->m_path = plain;
  for (int i = 0; i < n0; i++)
    {
      bool gets_off = vp_choose ("gets-off", 2);
      MNM_Passenger *p = gets_off ? passenger ({ ALIGHT, WALK }) : passenger ({ OUT, 999 });
      (gets_off ? off : ride).push_back (p);
      p->set_current_link (in_l); p->set_next_link (in_l);
      bus->m_passenger_pool.push_back (p);
    }
  for (int i = 0; i < n1; i++)
    {
      MNM_Passenger *p = passenger ({ 999 });
      p->set_current_link (bo); p->set_next_link (out_l);
      bo->m_finished_array.push_back (p);
      wait.push_back (p);
    }
  from.push_back (bus);
  stop->receive_bus (t, bus);
  vp_assert (stop->m_bus_queue.size () == 1 && stop->m_bus_queue[0] == bus, "arriving-bus-is-at-the-stop");
  vp_assert ((last (stop->m_N_in_bus) - buses_in) * fs == 1, "arrival-counted-once");
  for (auto *p : off) vp_assert (p->get_next_link () == al, "alighting-passenger-knows-next-link");
  for (auto *p : ride) vp_assert (p->get_next_link () == out_l, "riding-passenger-knows-next-link");
  bool left = false;
  int stopped = 0;
  size_t boarded = 0;
  for (int step = 0; step < 12 && !left; step++, t++)
    {
      // as the links do: ask, and if held board and alight
      bool h = stop->hold_bus (bus, bus, &from, &held, fs);
      if (!h)
        {
          vp_assert (from.size () == 1 && held.empty () && from[0] == bus, "released-bus-stays-in-the-queue");
          stop->release_bus (t, bus);
          left = true;
          break;
        }
      vp_assert (from.empty () && held.size () == 1 && held[0] == bus, "held-bus-moved-aside");
      stopped++;
      if (step == 0 && vp_choose ("next-bus", 2))
        {
          // another bus arriving behind a stopped one waits
          MNM_Veh_Multimodal *b2 = vf.make_veh_multimodal (0, MNM_TYPE_STATIC, 1, cap, 7, false);
          std::deque<MNM_Veh *> f2 (1, b2), h2;
          stop->receive_bus (t, b2);
          vp_assert (stop->hold_bus (b2, b2, &f2, &h2, fs) && f2.empty () && h2.size () == 1, "bus-behind-a-stopped-bus-waits");
          vp_reach ("second-held");
          stop->m_bus_queue.pop_back ();
          stop->m_N_in_bus->m_recorder.back ().second -= 1. / fs;
        }
      size_t pool0 = bus->m_passenger_pool.size (), wait0 = bo->m_finished_array.size (), off0 = al->m_finished_array.size ();
      bus->board_and_alight (t, stop);
      size_t got_off = al->m_finished_array.size () - off0, got_on = wait0 - bo->m_finished_array.size ();
      vp_assert (bus->m_passenger_pool.size () == pool0 - got_off + got_on, "bus-load-balances");
      vp_assert ((int) bus->m_passenger_pool.size () <= cap * fs, "bus-never-over-capacity");
      vp_assert ((int) got_off <= maxA * fs, "alighting-rate-respected");
      vp_assert ((int) got_on <= maxB * fs, "boarding-rate-respected");
      for (size_t i = 0; i < bo->m_finished_array.size (); i++) vp_assert (bo->m_finished_array[i] == wait[boarded + got_on + i], "boarding-in-order-of-arrival");
      boarded += got_on;
      for (auto *p : off) vp_assert (in (bus->m_passenger_pool, p) + in (al->m_finished_array, p) == 1 && in (bo->m_finished_array, p) == 0, "alighting-passenger-is-in-one-place");
      for (auto *p : ride) vp_assert (in (bus->m_passenger_pool, p) == 1 && in (al->m_finished_array, p) == 0, "riding-passenger-stays-on");
      for (auto *p : wait) vp_assert (in (bus->m_passenger_pool, p) + in (bo->m_finished_array, p) == 1 && in (al->m_finished_array, p) == 0, "waiting-passenger-is-in-one-place");
      for (auto *p : off) if (in (al->m_finished_array, p)) vp_assert (p->get_current_link () == al, "alighted-passenger-is-on-the-alighting-link");
      from.push_back (held.front ()); held.pop_front ();
      vp_assert (last (stop->m_N_out_bus) == buses_out, "held-bus-not-counted-as-gone");
    }
  vp_assert (left, "bus-leaves-once-served");
  vp_reach ("released");
  // nobody is carried past the stop or left behind with a free seat
  for (auto *p : off) { vp_reach ("alight"); vp_assert (in (al->m_finished_array, p) == 1, "everybody-for-this-stop-got-off"); }
  for (auto *p : ride) { vp_reach ("continue"); vp_assert (p->get_current_link () == out_l, "riding-passenger-is-on-the-next-link"); }
  for (size_t i = 0; i < boarded; i++) { vp_reach ("board"); vp_assert (wait[i]->get_current_link () == out_l, "boarded-passenger-is-on-the-next-link"); }
  bool full = (int) bus->m_passenger_pool.size () == cap * fs;
  if (full) vp_reach ("full");
  if (boarded < wait.size ()) { vp_reach ("left-behind"); vp_assert (full, "nobody-left-behind-with-a-free-seat"); }
  int served = off.size () + boarded > 0;
  if (served) { vp_assert (stopped >= dwell, "minimum-dwell-respected"); }
  else if (!full) vp_assert (stopped == dwell, "empty-stop-takes-the-minimum-dwell");
  // recorded curves
  vp_assert (last (al->m_N_in) * fs == (double) off.size (), "alighting-link-inflow");
  vp_assert (last (in_l->m_N_out) * fs == (double) (off.size () + ride.size ()), "bus-link-outflow");
  vp_assert (last (out_l->m_N_in) * fs == (double) (boarded + ride.size ()), "next-bus-link-inflow");
  vp_assert (last (bo->m_N_out) * fs == (double) boarded, "boarding-link-outflow");
  vp_assert ((last (stop->m_N_out_bus) - buses_out) * fs == 1, "departure-counted-once");
  double tp = 0, tq = 0;
  for (auto &e : out_l->m_N_in_tree->m_record) for (auto &f : e.second) (e.first == (MNM_Path *) pnr ? tq : tp) += last (f.second);
  double wp = 0, wq = 0;
  for (auto *p : ride) (p->m_pnr ? wq : wp) += 1;
  for (size_t i = 0; i < boarded; i++) (wait[i]->m_pnr ? wq : wp) += 1;
  vp_assert (tp * fs == wp && tq * fs == wq, "inflow-recorded-under-the-passengers-route");
  vp_assert (stop->m_bus_queue.empty (), "departed-bus-is-not-at-the-stop");
  vp_assert (stop->m_passed_bus_counter == 0, "next-group-starts-anew");
  return 0;
}
