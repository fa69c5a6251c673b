// vp-sources: core dta dta_gradient_utls due routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: new-route known-route route-a route-b moved none-moved choose-time fixed gp init
// vp-bounds: one OD pair with two possible routes over 5 links, 2 assignment intervals of 2 loading intervals (6 loading intervals in all); every route flow an arbitrary multiple of 1/4 up to 8, only the first, only the second or both routes in the table; link travel times 1 or 3 intervals by pattern, cost of two links arbitrary (multiples of 1/4 up to 16); all three update rules, iterations 0 and 3, step 1/2
// vp-time: 300 1500
#include "due_common.h"
extern "C" int vp_main ()
{
  Spec s; s.routing = "Due"; s.total = 6; s.due = DUE_CONF;
  s.dem[0] = vp_dy ("demand", 1, 32, 2); s.dem[1] = vp_dy ("demand", 0, 32, 2);
  MNM_Due_Msa *due = new MNM_Due_Msa (put (s));
  due->initialize ();
  vp_assert (due->m_total_loading_inter == 6 && due->m_total_assign_inter == 2, "configuration");
  MNM_Pathset *ps = due->m_path_table->find (1)->second->find (4)->second;
  vp_assert (ps->m_path_vec.size () == 1, "one-initial-route");
  int rule = vp_choose ("rule", 4);
  if (rule == 3)
    {
      if (vp_choose ("two", 2)) ps->m_path_vec.push_back (mk (RB, 2));
      due->init_path_flow ();
      double n = (double) ps->m_path_vec.size ();
      for (int c = 0; c < 2; c++)
        {
          double sum = 0;
          for (MNM_Path *p : ps->m_path_vec) { vp_assert (p->m_buffer[c] * n == s.dem[c], "initial-flow-is-an-even-share"); sum += p->m_buffer[c]; }
          vp_assert (sum == s.dem[c], "initial-flow-is-the-demand");
        }
      vp_reach ("init");
      // and the loader is given exactly the demand that the route flows add up to
      ps->m_path_vec[0]->m_buffer[0] = vp_dy ("flow", 0, 32, 2);
      due->update_demand_from_path_table (due->m_base_dta);
      MNM_Origin *o = due->m_base_dta->m_od_factory->get_origin (7); MNM_Destination *d = due->m_base_dta->m_od_factory->get_destination (8);
      for (int c = 0; c < 2; c++) { double sum = 0; for (MNM_Path *p : ps->m_path_vec) sum += p->m_buffer[c]; vp_assert (o->m_demand[d][c] == sum, "loaded-demand-is-the-route-flow"); }
      vp_assert (due->compute_total_demand (o, d, 2) == o->m_demand[d][0] + o->m_demand[d][1], "total-demand");
      delete due;
      return 0;
    }
  // the state before the update
  int known = vp_choose ("known", 3), pat = vp_choose ("pattern", 3), iter = 3 * vp_choose ("iter", 2);
  for (MNM_Path *p : ps->m_path_vec) delete p;
  ps->m_path_vec.clear ();
  if (known != 1) ps->m_path_vec.push_back (mk (RA, 2));
  if (known != 0) ps->m_path_vec.push_back (mk (RB, 2));
  double f0[2][2] = { { 0, 0 }, { 0, 0 } }; // route, interval
  for (MNM_Path *p : ps->m_path_vec)
    for (int c = 0; c < 2; c++) { int r = same (p, RA) ? 0 : 1; p->m_buffer[c] = f0[r][c] = vp_dy ("flow", 0, 32, 2); }
  due->update_demand_from_path_table (due->m_base_dta);
  for (auto &l : due->m_link_tt_map)
    for (int i = 0; i < 6; i++)
      {
        int id = l.first;
        double t = 1;
        if (id == 2 && (pat == 1 || (pat == 2 && i < 3))) t = 4;
        if (id == 3 && pat == 0) t = 3;
        due->m_link_tt_map[id][i] = t;
        due->m_link_cost_map[id][i] = t;
      }
  if (rule != 0) // a toll on one route, other interval by interval
    for (int i = 0; i < 3; i++) { double x = vp_dy ("toll", 0, 32, 2); due->m_link_cost_map[2][i] += i < 2 ? x : 0; if (i == 2) for (int k = 2; k < 6; k++) due->m_link_cost_map[2][k] += x; }
  due->update_path_table_cost (due->m_base_dta);
  auto cost = [&] (const std::vector<int> &r, int t, double &tt) {
    double x = 0; int now = t;
    for (int l : r) { int k = now < 5 ? now : 5; x += due->m_link_cost_map[l][k]; now += (int) due->m_link_tt_map[l][k]; }
    tt = now - t; return x; };
  auto dis = [&] (int t, double tt) { double a = t + tt; return tt + (a >= 3 ? 2 * (a - 3) : 0.5 * (3 - a)); };
  if (rule == 0) due->update_path_table (due->m_base_dta, iter);
  else if (rule == 1) due->update_path_table_fixed_departure_time_choice (due->m_base_dta, iter);
  else due->update_path_table_gp_fixed_departure_time_choice (due->m_base_dta, iter);
  vp_reach (rule == 0 ? "choose-time" : rule == 1 ? "fixed" : "gp");
  double f1[2][2] = { { 0, 0 }, { 0, 0 } }; int cnt[2] = { 0, 0 };
  for (MNM_Path *p : ps->m_path_vec)
    {
      vp_assert (same (p, RA) || same (p, RB), "only-real-routes");
      int r = same (p, RA) ? 0 : 1;
      if (++cnt[r] == 2) vp_assert (0, "every-route-once");
      for (int c = 0; c < 2; c++) { f1[r][c] = p->m_buffer[c]; vp_assert (p->m_buffer[c] >= 0, "route-flow-never-negative"); }
    }
  if ((int) ps->m_path_vec.size () > (known == 2 ? 2 : 1)) vp_reach ("new-route"); else vp_reach ("known-route");
  double tot0 = 0, tot1 = 0; const double eps = 1e-6;
  for (int c = 0; c < 2; c++)
    {
      double a = f0[0][c] + f0[1][c], b = f1[0][c] + f1[1][c];
      if (rule != 0) vp_assert (vp_and (a - b <= eps, b - a <= eps), "demand-of-the-interval-is-kept");
      tot0 += a; tot1 += b;
    }
  vp_assert (vp_and (tot0 - tot1 <= eps, tot1 - tot0 <= eps), "demand-of-the-OD-pair-is-kept");
  double tA, tB;
  if (rule == 1)
    for (int c = 0; c < 2; c++)
      {
        double a = cost (RA, 2 * c, tA), b = cost (RB, 2 * c, tB), k = 0.5 / (iter ? 2 : 1);
        int best = -1;
        if (a < b) { best = 0; vp_reach ("route-a"); } else if (b < a) { best = 1; vp_reach ("route-b"); }
        if (best < 0) continue;
        vp_assert (f1[1 - best][c] == f0[1 - best][c] * (1 - k), "other-routes-lose-their-share");
        vp_assert (cnt[best] == 1, "cheapest-route-is-in-the-table");
      }
  if (rule == 0)
    {
      // the cheapest departure: the route in use at time i is the cheaper one, its disutility counts
      double bd = 1e9; int bt = -1, br = -1; bool tie = false;
      for (int i = 0; i < 6; i++)
        {
          double a = cost (RA, i, tA), b = cost (RB, i, tB), d = dis (i, a <= b ? tA : tB);
          if (a == b) { if (d <= bd) tie = true; }
          else if (d < bd) { bd = d; bt = i; br = a < b ? 0 : 1; tie = false; }
        }
      int bc = bt / 2 > 1 ? 1 : bt / 2;
      double k = tot0 * 0.5 / (iter + 1);
      if (!tie)
        {
          for (int r = 0; r < 2; r++)
            for (int c = 0; c < 2; c++)
              if (r != br || c != bc)
                {
                  double take = f0[r][c] < k ? f0[r][c] : k;
                  vp_assert (f1[r][c] == f0[r][c] - take, "every-other-departure-gives-its-share");
                }
          vp_reach (br ? "route-b" : "route-a");
        }
    }
  if (rule == 2)
    for (int c = 0; c < 2; c++)
      {
        double a = cost (RA, 2 * c, tA), b = cost (RB, 2 * c, tB); (void) a; (void) b;
        double dA = dis (2 * c, tA), dB = dis (2 * c, tB);
        if (dA < dB) vp_assert (f1[0][c] >= f0[0][c], "flow-moves-to-the-better-route");
        else if (dB < dA) vp_assert (f1[1][c] >= f0[1][c], "flow-moves-to-the-better-route");
        else vp_assert (f1[1][c] == f0[1][c], "no-move-between-equal-routes");
        if (f1[0][c] < f0[0][c]) vp_reach ("moved");
        if (f1[0][c] == f0[0][c]) vp_reach ("none-moved");
      }
  delete due;
  return 0;
}
