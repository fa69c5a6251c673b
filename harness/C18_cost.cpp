// vp-sources: core dta dta_gradient_utls due routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: equilibrium gap late early on-time map fixed-gap unused
// vp-bounds: disutility: any departure and travel time (multiples of 1/4 up to 16) and target; equilibrium gap: two routes, 2 intervals, flows 0, 1 or 2, every disutility an arbitrary multiple of 1/4 up to 16 (the relative gap: lowest ones in use 1, 2 or 4); link cost map: one link with 0-2 vehicles inside at each of 6 intervals by pattern, any toll; route cost over 4-6 loading intervals with arbitrary link times (multiples of 1/2 up to 3)
// vp-time: 300 1500
#include "due_common.h"
extern "C" int vp_main ()
{
  Spec s; s.routing = "Due"; s.total = 6; s.due = DUE_CONF;
  MNM_Due_Msa *due = new MNM_Due_Msa (put (s));
  due->initialize ();
  MNM_Pathset *ps = due->m_path_table->find (1)->second->find (4)->second;
  for (MNM_Path *p : ps->m_path_vec) delete p;
  ps->m_path_vec.clear ();
  ps->m_path_vec.push_back (mk (RA, 2)); ps->m_path_vec.push_back (mk (RB, 2));
  switch (vp_choose ("case", 5))
    {
    case 0:
      {
        double d = vp_dy ("depart", 0, 64, 2), t = vp_dy ("tt", 0, 64, 2);
        due->m_target_time = vp_dy ("target", 0, 64, 2);
        double r = due->get_disutility (d, t), a = d + t - due->m_target_time;
        if (a > 0) { vp_reach ("late"); vp_assert (r == t + 2 * a, "late-arrival-disutility"); }
        else if (a < 0) { vp_reach ("early"); vp_assert (r == t - 0.5 * a, "early-arrival-disutility"); }
        else { vp_reach ("on-time"); vp_assert (r == t, "on-time-disutility"); }
        vp_obs_d ("r", r);
        break;
      }
    case 1:
    case 2:
      {
        bool rel = false;
        double du[2][2], f[2][2], low = 1e9, want = 0; int used = 0;
        for (int r = 0; r < 2; r++)
          {
            MNM_Path *p = ps->m_path_vec[r];
            p->m_travel_time_vec.assign (2, 7.0); p->m_travel_disutility_vec.assign (2, 0.0);
            for (int c = 0; c < 2; c++)
              {
                p->m_travel_disutility_vec[c] = du[r][c] = vp_dy ("disutility", 0, 64, 2);
                p->m_buffer[c] = f[r][c] = vp_choose ("flow", 3);
                if (du[r][c] < low) low = du[r][c];
              }
          }
        (void) rel;
        int eq = 1;
        for (int r = 0; r < 2; r++) for (int c = 0; c < 2; c++) { want += (du[r][c] - low) * f[r][c]; if (f[r][c] > 0) { used++; eq = vp_and (eq, du[r][c] == low); } }
        double g = due->compute_merit_function ();
        vp_assert (g == want && g >= 0, "gap-is-the-excess-disutility-of-all-travellers");
        vp_assert (vp_or (vp_and (g == 0, eq), vp_and (g > 0, vp_not (eq))), "gap-vanishes-exactly-at-equilibrium");
        if (used && vp_conc (eq)) vp_reach ("equilibrium"); else vp_reach ("gap");
        vp_obs_d ("gap", g);
        break;
      }
    case 3:
      {
        static const double LOW[] = { 1, 2, 4 };
        double want = 0, den = 0; int eq = 1;
        double l0 = LOW[vp_choose ("low", 3)];
        for (int c = 0; c < 2; c++)
          {
            double lo = c ? 2 : l0; int first = vp_choose ("first", 2), fl[2];
            fl[first] = 1 + (c && vp_choose ("flow", 2) ? 2 : 0); fl[1 - first] = vp_choose ("other", 2) * 2;
            for (int r = 0; r < 2; r++)
              {
                MNM_Path *p = ps->m_path_vec[r];
                p->m_travel_time_vec.resize (2, 7.0); p->m_travel_disutility_vec.resize (2, 0.0);
                double d = lo;
                if (r != first)
                  {
                    d = vp_dy ("disutility", 0, 64, 2);
                    if (fl[r]) { vp_assume (d >= lo); eq = vp_and (eq, d == lo); } else vp_reach ("unused");
                  }
                p->m_travel_disutility_vec[c] = d; p->m_buffer[c] = fl[r];
                if (fl[r]) { want += (d - lo) * fl[r]; den += lo * fl[r]; }
              }
          }
        double g = due->compute_merit_function_fixed_departure_time_choice (), e = g * den - want;
        vp_assert (vp_and (e <= 1e-6, e >= -1e-6), "relative-gap-is-excess-over-least-disutility");
        vp_assert (vp_and (g >= 0, vp_or (vp_and (g == 0, eq), vp_and (g > 0, vp_not (eq)))), "relative-gap-vanishes-exactly-at-equilibrium");
        vp_reach ("fixed-gap");
        vp_obs_d ("gap", g);
        break;
      }
    case 4:
      {
        // link times and costs from the curves; then the routes' times, disutilities and the total travel time
        MNM_Dta *dta = due->m_base_dta;
        int pat = vp_choose ("pattern", 4);
        double toll = vp_dy ("toll", 0, 64, 2);
        for (auto &l : dta->m_link_factory->m_link_map)
          {
            l.second->install_cumulative_curve ();
            int hold = l.first == 2 ? pat : l.first == 5 ? 1 : 0, d = 1 + hold;
            for (int i = 0; i < 6; i++) { l.second->m_N_in->add_increment (std::pair<TFlt, TFlt> (i + 1, 1)); if (i >= d) l.second->m_N_out->add_increment (std::pair<TFlt, TFlt> (i + 1, 1)); }
            if (l.first == 2) l.second->m_toll = toll;
          }
        dta->m_current_loading_interval = 6;
        due->build_link_cost_map (dta);
        double T[6][6];
        for (auto &l : dta->m_link_factory->m_link_map)
          for (int i = 0; i < 6; i++)
            {
              double t = MNM_DTA_GRADIENT::get_travel_time (l.second, TFlt (i + 1), 5, 6);
              T[(int) l.first][i] = t;
              vp_assert (due->m_link_tt_map[l.first][i] == t, "link-time-of-the-interval");
              vp_assert (due->m_link_cost_map[l.first][i] == t + (l.first == 2 ? toll : 0), "link-cost-is-time-value-plus-toll");
            }
        due->update_path_table_cost (dta);
        double tot = 0;
        for (MNM_Path *p : ps->m_path_vec)
          {
            vp_assert (p->m_travel_time_vec.size () == 2 && p->m_travel_disutility_vec.size () == 2, "one-cost-per-interval");
            for (int c = 0; c < 2; c++)
              {
                int now = 2 * c;
                for (int l : p->m_link_vec) now += (int) std::ceil (T[l][now < 5 ? now : 5] - 1e-9);
                double t = now - 2 * c;
                vp_assert (due->get_tt (TFlt (2 * c), p) == t, "route-time");
                vp_assert (p->m_travel_time_vec[c] == 5 * t, "route-time-in-seconds");
                vp_assert (p->m_travel_disutility_vec[c] == due->get_disutility (2 * c, t), "route-disutility");
                p->m_buffer[c] = vp_dy ("flow", 0, 32, 2);
                tot += t * p->m_buffer[c];
              }
          }
        vp_assert (due->compute_total_travel_time () == tot, "total-travel-time");
        vp_obs_d ("tot", tot);
        vp_reach ("map");
        break;
      }
    }
  delete due;
  return 0;
}
