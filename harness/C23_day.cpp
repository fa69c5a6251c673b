// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker multimodal
// vp-reach: car truck bus pnr passenger walked rode transferred-to-bus explicit implicit arrived waiting pickup
// vp-bounds: one network read from files by the library's readers: 5 driving nodes, 4 driving links (the middle one PQ or CTM), one bus route of 3 stops, 9 walking links, 2 bus links, one park-and-ride lot; unit time 60 s, one assignment interval of 15 minutes, flow scalar 1 or 2, six mixes of 0-1 cars and trucks, 0-2 park-and-ride cars, buses and passengers (thorough: every mix), times the flow scalar; bus capacity 1-2, boarding time 20 or 60 s per passenger, explicit and implicit buses, demand at once or spread; run to the end; the first 3 random draws (thorough: 5) arbitrary, then a fixed fair sequence; fixed routing only
// vp-time: 400 1800
#include "mm_common.h"
#include <map>
#include <string>
static std::string I (int x) { return std::to_string (x); }
static const int WL[] = { 201, 202, 205, 206, 207, 208, 209, 210, 211 };
extern "C" int vp_main ()
{
  int expl = vp_choose ("explicit", 2), fs = 1 + vp_choose ("scalar", 2), ctm = vp_choose ("ctm", 2), split = vp_choose ("split", 2);
  int cap = 1 + vp_choose ("capacity", 2), per = vp_choose ("boarding", 2);
  int who = vp_choose ("who", vp_tier () ? 7 : 6);
  static const int MIX[6][5] = { // cars trucks buses pnr passengers
    { 1, 1, 0, 0, 1 }, { 0, 0, 1, 0, 2 }, { 0, 0, 2, 1, 1 }, { 1, 0, 1, 1, 0 }, { 0, 1, 1, 2, 0 }, { 1, 1, 2, 1, 1 } };
  int any[5];
  if (who == 6) for (int i = 0; i < 5; i++) any[i] = vp_choose ("number", i < 2 ? 2 : 3);
  const int *mix = who == 6 ? any : MIX[who];
  if (!expl && (who == 1)) return 0;
  int nb = expl ? mix[2] : 0;
  std::string d = vp_dir ();
  std::string c = "[DTA]\nnetwork_name = graph\nunit_time = 60\ntotal_interval = -1\nassign_frq = 15\nstart_assign_interval = 0\nmax_interval = 1\nflow_scalar = " + I (fs)
    + "\nnum_of_link = 4\nnum_of_node = 5\nnum_of_O = 1\nnum_of_D = 2\nOD_pair = 1\nOD_pair_driving = 1\nOD_pair_pnr = 1\nOD_pair_bustransit = 1\nOD_pair_passenger = 1\nnum_bus_routes = 1\nnum_of_bus_stop_physical = 3\nnum_of_bus_stop_virtual = 3\nnum_of_walking_link = 9\nnum_of_bus_link = 2\nnum_of_parking_lot = 1\n"
    + "bus_capacity = " + I (cap) + "\nfixed_dwell_time = 60\nboarding_lost_time = 60\nalighting_time_per_passenger = 30\nboarding_time_per_passenger = " + I (per ? 60 : 20) + "\nexplicit_bus = " + I (expl) + "\nhistorical_bus_waiting_time = " + I (expl ? 0 : 2)
    + "\nadaptive_ratio_car = 0\nadaptive_ratio_truck = 0\nadaptive_ratio_passenger = 0\nrouting_type = Multimodal_Hybrid\ninit_demand_split = " + I (split) + "\nev_label_car = -2\nev_label_truck = -2\n"
    + "[STAT]\nrec_mode = LRn\nrec_mode_para = 15\nrec_folder = record\nrec_volume = 1\nvolume_load_automatic_rec = 0\nvolume_record_automatic_rec = 0\nrec_tt = 1\ntt_load_automatic_rec = 0\ntt_record_automatic_rec = 0\n"
    + "[FIXED]\ndriving_path_file_name = path_table\nnum_driving_path = 1\npnr_path_file_name = pnr_path_table\nnum_pnr_path = 1\nbustransit_path_file_name = bustransit_path_table\nnum_bustransit_path = 3\nbus_path_file_name = bus_path_table\nbus_route_file_name = bus_route_table\nnum_bus_routes = 1\nchoice_portion = Buffer\nbuffer_length = 2\nroute_frq = 15\n[ADAPTIVE]\nroute_frq = 15\nvot = 20\n";
  vp_write ((d + "/config.conf").c_str (), c.c_str (), nullptr);
  vp_write ((d + "/graph").c_str (), "1 1 2\n2 2 3\n3 3 4\n4 3 5\n", nullptr);
  vp_write ((d + "/driving_node").c_str (), "#\n1 DMOND 2\n2 FWJ 2\n3 FWJ 2\n4 DMDND 2\n5 DMDND 2\n", nullptr);
  std::string pq = " PQ 1 99999 99999 99999 1 99999 99999 99999 2\n";
  vp_write ((d + "/driving_link").c_str (), ("#\n1" + pq + "2 " + (ctm ? "CTM" : "PQ") + " 1.2 30 480 80 1 30 240 40 2\n3" + pq + "4" + pq).c_str (), nullptr);
  vp_write ((d + "/od").c_str (), "#origin\n7 1 60\n#destination\n8 4\n9 5\n", nullptr);
  vp_write ((d + "/bus_stop_physical").c_str (), "#\n11 2 0.25 7\n12 2 1 7\n13 3 0.5 7\n", nullptr);
  vp_write ((d + "/bus_stop_virtual").c_str (), "#\n101 11 7\n102 12 7\n103 13 7\n", nullptr);
  vp_write ((d + "/parking_lot").c_str (), "#\n50 5 1 0 60 100\n", nullptr);
  vp_write ((d + "/walking_link").c_str (),
            "#\n201 1 11 origin bus_stop_physical normal 60\n202 11 101 bus_stop_physical bus_stop_virtual boarding 1\n205 103 13 bus_stop_virtual bus_stop_physical alighting 1\n206 102 12 bus_stop_virtual bus_stop_physical alighting 1\n207 13 4 bus_stop_physical destination normal 120\n208 12 4 bus_stop_physical destination normal 150\n209 12 102 bus_stop_physical bus_stop_virtual boarding 1\n210 1 4 origin destination normal 200\n211 5 12 parking_lot bus_stop_physical normal 70\n", nullptr);
  vp_write ((d + "/bus_link").c_str (), "#\n203 101 102 0.75 0.025 7 2\n204 102 103 0.7 0.02 7 2 3\n", nullptr);
  const double dem[5] = { (double) mix[0], (double) mix[1], (double) mix[2], (double) mix[3], (double) mix[4] };
  vp_write ((d + "/driving_demand").c_str (), "#\n7 8 % %\n", dem);
  vp_write ((d + "/bus_demand").c_str (), "#\n7 8 7 %\n", dem + 2);
  vp_write ((d + "/pnr_demand").c_str (), "#\n7 8 %\n", dem + 3);
  vp_write ((d + "/bustransit_demand").c_str (), "#\n7 8 %\n", dem + 4);
  vp_write ((d + "/path_table").c_str (), "1 2 3 4\n", nullptr);
  vp_write ((d + "/path_table_buffer").c_str (), "1 1\n", nullptr);
  vp_write ((d + "/pnr_path_table").c_str (), "#\n1 4 50 5 1 2 3 5 211 209 204 205 207\n", nullptr);
  vp_write ((d + "/pnr_path_table_buffer").c_str (), "1\n", nullptr);
  vp_write ((d + "/bustransit_path_table").c_str (), "#\n1 4 201 202 203 204 205 207\n1 4 201 202 203 206 208\n1 4 210\n", nullptr);
  vp_write ((d + "/bustransit_path_table_buffer").c_str (), "0.5\n0.25\n0.25\n", nullptr);
  vp_write ((d + "/bus_path_table").c_str (), "#\n1 4 7 1 2 3 4\n", nullptr);
  vp_write ((d + "/bus_route_table").c_str (), "#\n1 4 7 101 102 103\n", nullptr);
  {
    MNM_Dta_Multimodal dta (d);
    dta.build_from_files ();
    dta.hook_up_node_and_link ();
    auto *vf = dynamic_cast<MNM_Veh_Factory_Multimodal *> (dta.m_veh_factory);
    auto *pf = dta.m_passenger_factory;
    MNM_Dlink_Multiclass *L[5];
    for (int i = 1; i < 5; i++) { L[i] = dynamic_cast<MNM_Dlink_Multiclass *> (dta.m_link_factory->get_link (i)); L[i]->install_cumulative_curve_multiclass (); }
    auto T = [&] (int id) { return dta.m_transitlink_factory->get_transit_link (id); };
    vp_rand_limit (vp_tier () ? 5 : 3);
    dta.pre_loading ();
    auto *o = dynamic_cast<MNM_Origin_Multimodal *> (dta.m_od_factory->get_origin (7));
    auto *lot = dta.m_parkinglot_factory->get_parking_lot (50);
    vp_reach (expl ? "explicit" : "implicit");
    std::map<int, std::vector<int>> route; // passenger -> links
    std::map<int, int> at, start;          // passenger -> index of the link it is on (or past the end)
    std::map<int, int> since;              // passenger -> interval it entered that link
    int n = 0, made0[5] = { 0 };
    double ptime = 0;
    bool more = true;
    while (more)
      {
        vp_assert (n < 60, "everyone-in-a-vehicle-arrives-in-the-end");
        dta.load_once (false, n, n);
        // vehicles
        int made[4] = { vf->m_num_car, vf->m_num_truck, vf->m_num_bus, vf->m_num_car_pnr }, en[4] = { vf->m_enroute_car, vf->m_enroute_truck, vf->m_enroute_bus, vf->m_enroute_car_pnr },
            fi[4] = { vf->m_finished_car, vf->m_finished_truck, vf->m_finished_bus, vf->m_finished_car_pnr };
        int on[2][5] = { { 0 }, { 0 } }, bus[5] = { 0 }, q[2] = { 0, 0 }, kind[4] = { 0 };
        for (auto *v : o->m_origin_node->m_in_veh_queue) q[v->get_class ()]++;
        for (auto &p : vf->m_veh_map)
          {
            auto *v = dynamic_cast<MNM_Veh_Multimodal *> (p.second);
            MNM_Dlink *x = v->get_current_link ();
            if (x) on[v->get_class ()][(int) x->m_link_ID]++, bus[(int) x->m_link_ID] += v->get_bus_route_ID () != -1;
            kind[v->get_ispnr () ? 3 : v->get_bus_route_ID () != -1 ? 2 : v->get_class ()]++;
          }
        for (int k = 0; k < 4; k++)
          {
            int want = k == 2 ? nb * fs : mix[k] * fs;
            vp_assert (made[k] <= want && (split || made[k] == want) && made[k] >= made0[k], "released-is-the-demand");
            if (n >= 14) vp_assert (made[k] == want, "all-the-demand-is-released");
            made0[k] = made[k];
            vp_assert (made[k] == en[k] + fi[k] && kind[k] == en[k], "created-is-finished-plus-en-route");
          }
        vp_assert (vf->m_num_veh == made[0] + made[1] + made[2] + made[3] && (int) vf->m_veh_map.size () == vf->m_enroute, "totals-are-the-sums");
        int held = 0; // park-and-ride cars waiting to be picked up at the origin
        for (auto *v : L[1]->m_incoming_array)
          {
            auto *m = dynamic_cast<MNM_Veh_Multimodal *> (v);
            vp_assert (m->get_ispnr () && n == m->m_start_time, "only-pickups-wait-and-for-the-waiting-time");
            held++;
          }
        if (held) vp_reach ("pickup");
        for (int i = 2; i < 5; i++) vp_assert (L[i]->m_incoming_array.empty (), "nothing-is-left-between-links");
        for (int k = 0; k < 2; k++)
          {
            auto IN = [&] (int i) { return last (k ? L[i]->m_N_in_truck : L[i]->m_N_in_car) * fs; };
            auto OUT = [&] (int i) { return last (k ? L[i]->m_N_out_truck : L[i]->m_N_out_car) * fs; };
            int sum = q[k];
            for (int i = 1; i < 5; i++)
              {
                sum += on[k][i];
                vp_assert (IN (i) - OUT (i) == on[k][i] - (k ? bus[i] : 0), "curves-differ-by-the-vehicles-on-the-link");
                vp_assert ((k ? L[i]->get_link_flow_truck () : L[i]->get_link_flow_car ()) * fs == on[k][i] - (i == 1 && k == 0 ? held : 0), "link-volume-is-the-vehicles-on-it");
              }
            vp_assert (sum == (k ? en[1] + en[2] : en[0] + en[3]), "every-vehicle-is-on-a-link-or-at-the-origin");
            vp_assert (OUT (1) == IN (2) && OUT (2) == IN (3) + IN (4), "junctions-conserve-flow");
            vp_assert (OUT (3) == (k ? fi[1] : fi[0]) && OUT (4) == (k ? 0 : fi[3]), "arrivals-leave-through-the-last-link");
          }
        if (fi[0]) vp_reach ("car");
        if (fi[1]) vp_reach ("truck");
        if (fi[2]) vp_reach ("bus");
        // passengers
        vp_assert (pf->m_num_passenger_pnr == fi[3], "every-parked-driver-continues-as-one-passenger");
        int direct = pf->m_num_passenger - pf->m_num_passenger_pnr;
        vp_assert (direct <= mix[4] * fs && (split || direct == mix[4] * fs) && (n < 14 || direct == mix[4] * fs), "released-passengers-are-the-demand");
        vp_assert (pf->m_num_passenger == pf->m_enroute_passenger + pf->m_finished_passenger && (int) pf->m_passenger_map.size () == pf->m_enroute_passenger, "passengers-are-en-route-or-finished");
        for (auto &e : pf->m_passenger_map)
          {
            MNM_Passenger *p = e.second;
            int id = p->m_passenger_ID;
            if (!route.count (id))
              {
                vp_assert (p->m_transit_path != nullptr, "passenger-has-a-route");
                route[id] = std::vector<int> (p->m_transit_path->m_link_vec.begin (), p->m_transit_path->m_link_vec.end ());
                at[id] = -1; since[id] = n; start[id] = p->m_start_time;
                if (p->m_pnr) { vp_reach ("pnr"); vp_assert (p->m_start_time == n, "parked-driver-starts-when-parked"); }
              }
            MNM_Transit_Link *cur = p->get_current_link ();
            vp_assert (cur != nullptr, "passenger-en-route-is-on-a-link");
            int k = -1;
            for (size_t i = 0; i < route[id].size (); i++) if (route[id][i] == cur->m_link_ID) k = i;
            vp_assert (k >= at[id], "passenger-moves-along-its-route");
            int places = in (o->m_in_passenger_queue, p) + in (lot->m_in_passenger_queue, p);
            for (auto &l : dta.m_transitlink_factory->m_transit_link_map) { int h = on_link (l.second, p); places += h; if (h) vp_assert (l.second == cur, "passenger-is-on-its-current-link"); }
            for (auto &v : vf->m_veh_map) if (auto *b = dynamic_cast<MNM_Veh_Multimodal *> (v.second)) places += in (b->m_passenger_pool, p);
            vp_assert (places == 1, "passenger-is-in-exactly-one-place");
            if (k != at[id])
              {
                if (at[id] >= 0)
                  if (auto *w = dynamic_cast<MNM_Walking_Link *> (T (route[id][at[id]])))
                    if (w->m_walking_type == "normal")
                      {
                        int took = n - since[id], lotl = w->m_link_ID == 211;
                        vp_assert (took == std::max (1, (int) (w->m_fftt / 60)) + lotl, "walk-takes-its-walking-time");
                      }
                at[id] = k; since[id] = n;
              }
            if (k >= 0 && (route[id][k] == 203 || route[id][k] == 204)) { vp_reach ("rode"); if (p->m_pnr) vp_reach ("transferred-to-bus"); }
            if (expl && k >= 0 && (route[id][k] == 202 || route[id][k] == 209)) vp_reach ("waiting");
          }
        for (auto &e : at)
          if (!pf->m_passenger_map.count (e.first) && e.second < (int) route[e.first].size ())
            {
              // arrived in this interval, from the last link of its route
              vp_assert (e.second == (int) route[e.first].size () - 1, "passenger-arrives-through-the-last-link-of-its-route");
              auto *w = dynamic_cast<MNM_Walking_Link *> (T (route[e.first].back ()));
              vp_assert (n - since[e.first] == (int) (w->m_fftt / 60), "last-walk-takes-its-walking-time");
              ptime += n - start[e.first];
              e.second = route[e.first].size ();
              vp_reach (route[e.first].size () == 1 ? "walked" : "passenger");
            }
        int fin = 0;
        for (auto &e : at) fin += e.second == (int) route[e.first].size ();
        vp_assert (fin == pf->m_finished_passenger && pf->m_total_time_passenger == ptime, "arrived-passengers-and-their-times-are-counted");
        for (auto &l : dta.m_transitlink_factory->m_transit_link_map)
          {
            int in_n = 0, out_n = 0;
            for (auto &e : route)
              for (size_t i = 0; i < e.second.size (); i++)
                if (e.second[i] == l.first) { in_n += at[e.first] >= (int) i; out_n += at[e.first] > (int) i; }
            vp_assert (last (l.second->m_N_in) * fs == in_n, "passenger-inflow-curve");
            vp_assert (last (l.second->m_N_out) * fs == out_n, "passenger-outflow-curve");
          }
        for (auto &v : vf->m_veh_map) if (auto *b = dynamic_cast<MNM_Veh_Multimodal *> (v.second)) vp_assert ((int) b->m_passenger_pool.size () <= cap * fs, "bus-within-capacity");
        vp_assert ((int) dta.m_enroute_passenger_num.size () == n + 1 && dta.m_enroute_passenger_num.back () == pf->m_enroute_passenger, "en-route-passengers-recorded");
        int wq = 0;
        for (int w : WL) wq += dta.m_queue_passenger_map[w]->back ();
        vp_assert (dta.m_queue_passenger_num.back () == wq, "queued-passengers-recorded");
        vp_assert (lot->m_parked_car == fi[3] && lot->m_occupancy == fi[3], "parked-cars-occupy-the-lot");
        n++;
        more = !dta.finished_loading (n) || n < 15 || (!expl && pf->m_enroute_passenger > 0);
      }
    vp_assert (vf->m_enroute == 0, "every-vehicle-has-arrived");
    vp_reach ("arrived");
    vp_obs_i ("n", n);
    vp_obs_i ("p", pf->m_num_passenger); vp_obs_d ("pt", pf->m_total_time_passenger); vp_obs_d ("vt", vf->m_total_time);
  }
  return 0;
}
