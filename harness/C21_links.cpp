// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: inflow rejected curve time capped infinite registered duplicate unknown speed car truck average waiting queue
// vp-bounds: the five-link network with cars and trucks read from files; two registered links (any order) with 3 vehicles per class each, one entering and one leaving at arbitrary times (0..2 later than the others); one or two queried intervals at arbitrary times from 0 to one past the loaded ones, window lengths 0..4; arbitrary waiting times and queue counts
// vp-time: 300 1200
// vp-flags: -DEIGEN_DONT_VECTORIZE
#include "mc_common.h"
#include "macposts/_ext/mcdta.cpp"
#include <cmath>
typedef macposts::mcdta::Mcdta Api;
typedef pybind11::array_t<int> AI; typedef pybind11::array_t<double> AD;
static int close (double a, double b) { return vp_and (a - b <= 1e-9, b - a <= 1e-9); }
extern "C" int vp_main ()
{
  int what = vp_choose ("what", 7), th = 0;
  Spec2 s; s.unit = what > 2 ? 2 : 5; s.scalar = what == 6 ? 2 : 1;
  Api *d = new Api ();
  vp_assert (d->initialize (put2 (s)) == 0 && d->check_input_files (), "initialise");
  AI all = d->get_all_links ();
  vp_assert (all.size () == 5 && all[0] == 1 && all[1] == 2 && all[2] == 3 && all[3] == 4 && all[4] == 5, "all-links-ascending");
  int order = what < 2 ? vp_choose ("order", 2) : 0, id[2] = { order ? 5 : 2, order ? 2 : 5 };
  d->register_links (AI{ id[0], id[1] });
  AI reg = d->get_registered_links ();
  vp_assert (reg.size () == 2 && reg[0] == id[0] && reg[1] == id[1], "registered-links-in-order");
  vp_reach ("registered");
  if (what == 0)
    {
      int bad = vp_choose ("bad", 4);
      try { if (bad == 0) d->register_links (AI{ 2, 3, 2 }); else if (bad == 1) d->register_links (AI{ 2, 9 }); else if (bad == 2) d->register_links (AI (std::vector<long>{ 1, 1 })); else { d->register_links (AI{ 3 }); th = 1; } }
      catch (const std::runtime_error &) { th = 2; }
      vp_reach (bad == 0 ? "duplicate" : "unknown");
      vp_assert (th == (bad == 3 ? 1 : 2), "bad-lists-are-rejected");
      if (bad == 3) { AI r = d->get_registered_links (); vp_assert (r.size () == 1 && r[0] == 3, "registering-again-replaces"); }
      delete d;
      return 0;
    }
  d->install_cc ();
  MNM_Dlink_Multiclass *L[2]; for (int i = 0; i < 2; i++) L[i] = dynamic_cast<MNM_Dlink_Multiclass *> (d->m_mcdta->m_link_factory->get_link (id[i]));
  if (what == 6)
    {
      // vehicles waiting and en route
      const int E = 3; auto *m = d->m_mcdta;
      double w[2], n[2]; int sp = vp_choose ("spillback", 2);
      for (int k = 0; k < 2; k++)
        {
          w[k] = vp_dy ("waited", 0, 64, 2); n[k] = 1 + k;
          CC (L[0], k)->add_increment (std::pair<TFlt, TFlt> (1, 1)); if (k) CC (L[0], k)->add_increment (std::pair<TFlt, TFlt> (3, 1));
          CC (L[1], k)->add_increment (std::pair<TFlt, TFlt> (1, 4));
        }
      L[0]->m_tot_wait_time_at_intersection_car = w[0]; L[0]->m_tot_wait_time_at_intersection_truck = w[1]; L[0]->m_tot_wait_time_at_intersection = w[0] + w[1]; L[0]->m_spill_back = sp; L[1]->m_spill_back = !sp;
      AD r = d->get_waiting_time_at_intersections (), c = d->get_waiting_time_at_intersections_car (), t = d->get_waiting_time_at_intersections_truck ();
      AI b = d->get_link_spillback ();
      auto per = [&] (double got, double tot, double veh) { return vp_and (got * veh <= tot + 1e-9, tot - got * veh <= 1e-4); }; // (the average is taken over 1e-6 vehicles more)
      vp_assert (r.size () == 2 && c.size () == 2 && t.size () == 2 && b.size () == 2, "one-value-per-link");
      vp_assert (per (r[0], w[0] + w[1], 3), "average-waiting-time"); vp_assert (per (c[0], w[0], n[0]), "average-waiting-time-of-cars"); vp_assert (per (t[0], w[1], n[1]), "average-waiting-time-of-trucks");
      vp_assert (r[1] == 0 && c[1] == 0 && t[1] == 0, "no-waiting"); vp_assert (b[0] == sp && b[1] == !sp, "spillback-flag");
      vp_reach ("waiting");
      int q[5][E], en[E], qn[E], bad = vp_choose ("recorded", 4);
      for (int l = 1; l <= 5; l++) { m->m_queue_veh_map[l] = new std::deque<TInt> (); for (int i = 0; i < E; i++) { q[l - 1][i] = l < 3 && i < 2 ? vp_int ("queue", 0, 9) : l; m->m_queue_veh_map[l]->push_back (q[l - 1][i]); } }
      for (int i = 0; i < E; i++) { en[i] = i ? vp_int ("en-route", 0, 20) : 7; qn[i] = i ? vp_int ("queued", 0, 20) : 3; if (bad != 1 || i) m->m_enroute_veh_num.push_back (en[i]); if (bad != 2 || i) m->m_queue_veh_num.push_back (qn[i]); }
      m->m_current_loading_interval = E;
      try { AD a = d->get_enroute_and_queue_veh_stats_agg (); th = 1;
        vp_assert (a.sh.size () == 2 && a.sh[0] == E && a.sh[1] == 3, "one-row-per-interval");
        for (int i = 0; i < E; i++) { vp_assert (a[3 * i] == en[i] / 2., "en-route-vehicles-per-interval"); vp_assert (a[3 * i + 1] == qn[i] / 2., "queued-vehicles-per-interval"); vp_assert (a[3 * i + 2] == (en[i] - qn[i]) / 2., "moving-vehicles-per-interval"); } }
      catch (const std::runtime_error &) { th = 2; }
      vp_assert (th == (bad == 1 || bad == 2 ? 2 : 1), "incomplete-records-are-rejected");
      int t0 = vp_int ("at", 0, E), l0 = bad == 3 ? 9 : 2; th = 0;
      try { AD a = d->get_queue_veh_each_link (AI{ l0, 1, 4 }, AI{ t0, 1 }); th = 1;
        vp_assert (a.sh.size () == 2 && a.sh[0] == 3 && a.sh[1] == 2, "one-row-per-link");
        int z = vp_conc (t0);
        for (int i = 0; i < 2; i++) { int u = i ? 1 : z; vp_assert (a[i] == q[1][u] / 2., "queue-of-the-link-and-interval"); vp_assert (a[2 + i] == q[0][u] / 2., "queue-of-the-link-and-interval"); vp_assert (a[4 + i] == 2., "queue-of-the-link-and-interval"); } }
      catch (const std::runtime_error &) { th = 2; }
      vp_assert (th == (bad == 3 || t0 == E ? 2 : 1), "unknown-links-and-intervals-are-rejected");
      vp_reach ("queue");
      delete d;
      return 0;
    }
  const int T = 9; d->m_mcdta->m_current_loading_interval = T;
  int cls = what == 2 ? 0 : vp_choose ("truck", 2);
  int a[2][2][3], b[2][2][3]; // link, class, vehicle
  for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++)
    {
      int t = 1, ff = FF (L[i], k), last = 0, sym = i == 0 && (what == 1 || what == 3) && k == cls;
      for (int v = 0; v < 3; v++)
        {
          t += sym && v == 1 ? vp_int ("gap", 0, 2) : k + i + v / 2; a[i][k][v] = t; CC (L[i], k)->add_increment (std::pair<TFlt, TFlt> (t, 1));
          b[i][k][v] = std::max (t + ff, last) + (sym && v == 2 ? vp_int ("delay", 0, 2) : 1); last = b[i][k][v];
        }
      for (int v = 0; v < 3; v++) CC (L[i], k, true)->add_increment (std::pair<TFlt, TFlt> (b[i][k][v], 1));
      if (last > d->m_mcdta->m_current_loading_interval) d->m_mcdta->m_current_loading_interval = last;
    }
  const int E = d->m_mcdta->m_current_loading_interval;
  vp_assert (d->get_cur_loading_interval () == E, "loaded-intervals");
  double u = s.unit;
  if (what == 1)
    {
      int truck = cls, s0 = vp_int ("start", 0, E), e0 = s0 + vp_int ("len", 0, 4), ok = e0 > s0 && s0 < E && e0 <= E;
      AI S{ s0, 3 }, F{ e0, 5 };
      try { AD r = truck ? d->get_link_truck_inflow (S, F) : d->get_link_car_inflow (S, F); th = 1;
        vp_assert (ok, "windows-outside-the-loading-are-rejected");
        vp_assert (r.sh.size () == 2 && r.sh[0] == 2 && r.sh[1] == 2, "one-row-per-link");
        for (int i = 0; i < 2; i++) for (int t = 0; t < 2; t++)
          {
            int n = 0, lo = t ? 3 : s0, hi = t ? 5 : e0;
            for (int k = 0; k < 3; k++) n += a[i][truck][k] > lo && a[i][truck][k] <= hi;
            vp_assert (r[2 * i + t] == n, "inflow-is-the-vehicles-of-the-class-entering-in-the-window");
          }
        vp_reach ("inflow"); }
      catch (const std::runtime_error &) { th = 2; vp_reach ("rejected"); }
      vp_assert (th == (ok ? 1 : 2), "valid-windows-are-answered");
      int n = vp_choose ("shape", 2); th = 0; AI bad = n ? AI{ 0 } : AI (std::vector<long>{ 1, 2 });
      try { if (truck) d->get_link_truck_inflow (bad, F); else d->get_link_car_inflow (bad, F); } catch (const std::runtime_error &) { th = 1; }
      vp_assert (th == 1, "mismatched-lists-are-rejected");
    }
  else if (what == 2)
    {
      for (int i = 0; i < 2; i++)
        {
          auto same = [&] (AD x, MNM_Cumulative_Curve *c) {
            vp_assert (x.sh.size () == 2 && x.sh[1] == 2 && x.sh[0] == (long) c->m_recorder.size (), "one-row-per-point");
            for (size_t k = 0; k < c->m_recorder.size (); k++) vp_assert (vp_and (x[2 * k] == c->m_recorder[k].first, x[2 * k + 1] == c->m_recorder[k].second), "curve-points");
          };
          same (d->get_car_link_in_cc (id[i]), CC (L[i], 0)); same (d->get_car_link_out_cc (id[i]), CC (L[i], 0, true)); same (d->get_truck_link_in_cc (id[i]), CC (L[i], 1)); same (d->get_truck_link_out_cc (id[i]), CC (L[i], 1, true));
          int q = vp_int ("time", 0, E), n[2] = { 0, 0 };
          for (int k = 0; k < 2; k++) for (int v = 0; v < 3; v++) n[k] += b[i][k][v] <= q;
          vp_assert (d->get_car_link_out_num (id[i], q) == n[0], "cars-that-left"); vp_assert (d->get_truck_link_out_num (id[i], q) == n[1], "trucks-that-left");
          vp_reach ("curve");
        }
      AD f = d->get_car_link_fftt (AI{ 5, 2, 1 }), g = d->get_truck_link_fftt (AI{ 5, 2, 1 });
      static const int o[3] = { 5, 2, 1 };
      vp_assert (f.size () == 3 && g.size () == 3, "one-free-flow-time-per-link");
      for (int i = 0; i < 3; i++) { MNM_Dlink *l = d->m_mcdta->m_link_factory->get_link (o[i]); vp_assert (f[i] == FF (l, 0) * u && g[i] == FF (l, 1) * u, "free-flow-time-of-the-class-in-seconds"); }
      auto *x = dynamic_cast<MNM_Dlink_Multiclass *> (d->m_mcdta->m_link_factory->get_link (3)); x->m_N_in_car = x->m_N_out_car = x->m_N_in_truck = x->m_N_out_truck = nullptr;
      for (int i = 0; i < 4; i++) try { if (i == 0) d->get_car_link_in_cc (3); else if (i == 1) d->get_car_link_out_cc (3); else if (i == 2) d->get_truck_link_in_cc (3); else d->get_truck_link_out_cc (3); } catch (const std::runtime_error &) { th++; }
      vp_assert (th == 4, "no-curve-is-an-error");
    }
  else
    {
      // 3: times; 4: averages over a window; 5: speeds and averages over listed intervals
      int robust = what == 4, k = cls, s0 = vp_int ("start", 0, E), mode = what == 5 ? 0 : vp_choose ("mode", 3), inf = mode == 2, scale = mode > 0;
      if (scale) for (int i = 0; i < 2; i++) { L[i]->m_ffs_car = L[i]->m_ffs_car * 64; L[i]->m_ffs_truck = L[i]->m_ffs_truck * 32; }
      int e0 = s0 + (robust ? vp_int ("len", 0, 3) : 1), ok = s0 < E && (!robust || (e0 > s0 && e0 <= E));
      AD r; AD S{ (double) s0, 2. }, F{ (double) e0, 4. };
      auto cap = [&] (int i) { return 20 * L[i]->m_length / (k ? L[i]->m_ffs_truck : L[i]->m_ffs_car); };
      try
        {
          if (what == 5) r = k ? d->get_truck_link_speed (S) : d->get_car_link_speed (S);
          else if (robust) r = k ? d->get_truck_link_tt_robust (S, F, 3, inf) : d->get_car_link_tt_robust (S, F, 3, inf);
          else r = k ? d->get_truck_link_tt (S, inf) : d->get_car_link_tt (S, inf);
          th = 1;
        }
      catch (const std::runtime_error &) { th = 2; vp_reach ("rejected"); }
      vp_assert (th == (ok ? 1 : 2), "start-must-have-been-loaded");
      if (th == 1)
        {
          vp_reach (k ? "truck" : "car");
          vp_assert (r.sh.size () == 2 && r.sh[0] == 2 && r.sh[1] == 2, "one-row-per-link");
          for (int i = 0; i < 2; i++) for (int t = 0; t < 2; t++)
            {
              double q = (t ? 2 : s0) + 1, e = (t ? 4 : e0) + 1, w = 0;
              if (robust) { int n = (int) vp_conc ((int) (e - q)); n = n > 3 ? 3 : n; for (int j = 0; j < n; j++) w += TT (L[i], k, q + j * (e - q) / n, E); w = w / n * u; }
              else w = TT (L[i], k, q, E) * u;
              if (what == 5) { vp_assert (close (vp_concd (r[2 * i + t]) * vp_concd (w), L[i]->m_length * 2.25), "speed-is-length-over-travel-time-in-mph"); vp_reach ("speed"); continue; }
              if (w > cap (i)) { vp_reach (inf ? "infinite" : "capped"); vp_assert (inf ? std::isinf (vp_concd (r[2 * i + t])) : close (r[2 * i + t], cap (i)), "excessive-times-are-capped"); }
              else { vp_reach ("time"); vp_assert (close (r[2 * i + t], w), "travel-time-in-seconds"); }
            }
        }
      if (what == 5)
        {
          th = 0;
          AD m;
          try { AI l{ id[1], id[0] }; m = k ? d->get_avg_link_on_path_tt_truck (l, S) : d->get_avg_link_on_path_tt_car (l, S); th = 1; } catch (const std::runtime_error &) { th = 2; }
          vp_assert (th == (ok ? 1 : 2), "start-must-have-been-loaded");
          if (th == 1)
            {
              vp_assert (m.sh.size () == 1 && m.sh[0] == 2, "one-average-per-link");
              for (int i = 0; i < 2; i++) { double w = 0; for (int t = 0; t < 2; t++) { double x = TT (L[i], k, (t ? 2 : s0) + 1, E) * u, c = cap (i); w += x > c ? c : x; } vp_assert (close (m[1 - i], w / 2), "average-travel-time-in-seconds"); }
              vp_reach ("average");
            }
        }
    }
  delete d;
  return 0;
}
