// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: free semi full cars-only trucks-only moved tt-free tt-congested tt-jammed modified
// vp-bounds: the same parameterisations, as built or after a change of capacity; one interval from any state with 0,1,2,3,5 or 8 cars and 0,1,2 or 4 trucks on a link (in one cell, the next cell holding up to 4 cars and 2 trucks); the travel time of any volume (multiples of 1/4 up to twice the storage, except within 0.1% of it)
// vp-time: 200 1800
#include "mclinks_common.h"
static bool near (double a, double b) { double s = (b < 0 ? -b : b) + 1e-3, d = a - b; return vp_and (d <= 1e-7 * s, d >= -1e-7 * s); }
static double mn (double a, double b) { return a < b ? a : b; }
static double pos (double a) { return a > 0 ? a : 0; }
static MNM_Dlink_Pq nextlink (8, 1, 1, 1, 10, 10, 1, 1);
static MNM_Veh *veh (int cl) { static int id; MNM_Veh *v = new MNM_Veh_Multiclass (++id, cl, 0); v->set_next_link (&nextlink); return v; }
static bool rounds (int n, double x, int have) // x rounded up or down, not more than there are
{
  if (n == have) return x >= have - 1 + 1e-9 || have == 0;
  return n <= have && n > x - 1 - 1e-9 && n < x + 1 + 1e-9 && n >= 0;
}
extern "C" int vp_main ()
{
  int i = vp_choose ("link", NMC), what = vp_choose ("what", 2), mod = vp_choose ("modified", 2);
  McCfg c = MC[i];
  MNM_Link_Factory_Multiclass f;
  MNM_Dlink_Multiclass *l = make_mc (c, f);
  if (mod)
    {
      if (c.type == 2) return 0;
      vp_reach ("modified");
      c.qc *= 0.5; c.qt *= 0.5; c.hc *= 1.5; c.ht *= 1.25;
      l->modify_property (c.lanes, c.length, c.hc, c.ht, c.qc, c.qt, c.vc, c.vt);
    }
  double len = c.length;
  if (c.type == 0 && len < c.vc * c.unit) len = c.vc * c.unit;
  // the capacity lets at least one vehicle of each class through per interval
  double least = 1 / (c.unit * c.scalar), qc = c.qc * c.lanes, qt = c.qt * c.lanes;
  if (c.type < 2 && qc < least) qc = least;
  if (c.type < 2 && qt < least) qt = least;
  double jc = c.hc * c.lanes, jt = c.ht * c.lanes, cc = qc / c.vc, ct = qt / c.vt, wc = qc / (jc - cc), wt = qt / (jt - ct);
  vp_assert (near (l->get_link_freeflow_tt_car (), len / c.vc) && near (l->get_link_freeflow_tt_truck (), len / c.vt), "free-flow-time");
  if (what == 0)
    {
      bool truck = vp_choose ("class", 2);
      double j = truck ? jt : jc, q = truck ? qt : qc, v = truck ? c.vt : c.vc, hold = j * len, crit = q / v * len;
      double x = vp_dy ("flow", 0, (int) (hold * 8), 2);
      vp_assume (x <= hold * 0.999 || x >= hold * 1.001);
      double tt = truck ? l->get_link_tt_from_flow_truck (x) : l->get_link_tt_from_flow_car (x);
      if (c.type == 2) { vp_assert (near (tt, len / c.vc), "point-queue-time-is-free-flow"); return 0; }
      vp_assert (tt >= len / v * (1 - 1e-6), "never-below-free-flow-time");
      if (x <= crit * (1 - 1e-9)) { vp_reach ("tt-free"); vp_assert (tt <= len / v * (1 + 1e-6), "free-flow-below-critical-density"); }
      if (x >= hold * (1 + 1e-9)) { vp_reach ("tt-jammed"); vp_assert (tt == MNM_Ults::max_link_cost (), "jam-has-the-maximal-cost"); }
      if (x > crit * (1 + 1e-9) && x < hold * 0.95)
        {
          vp_reach ("tt-congested");
          double d = tt * (q * (hold - x)) - x * (hold - crit);
          vp_assert (d < 1e-6 * x * hold && d > -1e-6 * x * hold, "congested-time-from-the-triangular-diagram");
        }
      return 0;
    }
  static const int NC[] = { 0, 1, 3, 8, 2, 5 }, NT[] = { 0, 1, 4, 2 };
  int nc = NC[vp_choose ("cars", mod && !vp_tier () ? 4 : 6)], nt = NT[vp_choose ("trucks", mod && !vp_tier () ? 3 : 4)];
  vp_rand_limit (2);
  for (int k = 0; k < nc + nt; k++) l->m_incoming_array.push_back (veh (k >= nc));
  if (c.type == 2)
    {
      double s = l->get_link_supply ();
      vp_assert (near (s, qc * c.unit), "point-queue-supply-is-capacity");
      int room = (int) (s * c.scalar + 0.999);
      l->clear_incoming_array (0);
      int in = nc + nt - (int) l->m_incoming_array.size ();
      vp_assert (in == (nc + nt < room ? nc + nt : room), "point-queue-admits-up-to-its-supply");
      return 0;
    }
  if (c.type == 1)
    {
      l->clear_incoming_array (0);
      Share s = reference (c, len, nc, nt, qc, qt);
      double dc = s.fc * mn (qc, c.vc * s.pc) * c.unit * c.scalar, dt = s.ft * mn (qt, c.vt * s.pt) * c.unit * c.scalar;
      l->evolve (0);
      int mc = 0, mt = 0;
      for (MNM_Veh *v : l->m_finished_array) (v->get_class () ? mt : mc)++;
      vp_assert (rounds (mc, dc, nc) && rounds (mt, dt, nt), "outflow-follows-the-class-demand");
      // supply of each class, with the floor used for short links
      double sc = s.fc * mn (qc, wc * (jc - s.pc)), st = s.ft * mn (qt, wt * (jt - s.pt));
      double lc = s.fc * wc * 0.3 * (jc - cc), lt = s.ft * wt * 0.3 * (jt - ct);
      double ref = (pos (sc > lc ? sc : lc) + c.factor * pos (st > lt ? st : lt)) * c.unit;
      vp_assert (near (l->get_link_supply (), ref), "supply-follows-the-two-class-diagram");
    }
  else
    {
      MNM_Dlink_Ctm_Multiclass *q = (MNM_Dlink_Ctm_Multiclass *) l;
      int n = q->m_num_cells, mc = 0, mt = 0;
      if (n > 1)
        {
          mc = vp_choose ("next-cars", mod ? 2 : 3) * (mod ? 4 : 2); mt = vp_choose ("next-trucks", mod ? 2 : 3);
          for (int k = 0; k < mc; k++) q->m_cell_array[1]->m_veh_queue_car.push_back (veh (0));
          for (int k = 0; k < mt; k++) q->m_cell_array[1]->m_veh_queue_truck.push_back (veh (1));
          q->m_cell_array[1]->m_volume_car = mc; q->m_cell_array[1]->m_volume_truck = mt;
          q->m_cell_array[1]->update_perceived_density ();
          if (mc + mt) vp_reach ("moved");
        }
      double cell = c.vc * c.unit, last = len - (n - 1) * cell;
      vp_assert (n >= 1 && last >= cell - 1e-9 && last < 2 * cell, "cells-cover-the-link");
      l->clear_incoming_array (0);
      double k0 = (nc + c.factor * nt) / c.scalar / (n > 1 ? cell : last);
      double s = mn (qc, wc * (jc - k0)), s2 = 0.25 * wc * (jc - k0);
      vp_assert (near (l->get_link_supply (), pos (s > s2 ? s : s2) * c.unit), "supply-follows-the-first-cell");
      if (n > 1)
        {
          Share a = reference (c, cell, nc, nt, qc, qt), b = reference (c, n > 2 ? cell : last, mc, mt, qc, qt);
          double fc = a.fc * mn (mn (qc, c.vc * a.pc), pos (mn (qc, wc * (jc - b.pc)))) * c.unit * c.scalar;
          double ft = a.ft * mn (mn (qt, c.vt * a.pt), pos (mn (qt, wt * (jt - b.pt)))) * c.unit * c.scalar;
          l->evolve (0);
          int oc = nc - (int) q->m_cell_array[0]->m_veh_queue_car.size (), ot = nt - (int) q->m_cell_array[0]->m_veh_queue_truck.size ();
          vp_assert (rounds (oc, fc, nc), "cars-leaving-a-cell-follow-the-diagram");
          vp_assert (rounds (ot, ft, nt), "trucks-leaving-a-cell-follow-the-diagram");
        }
    }
  double kc = nc / c.scalar / len, kt = nt / c.scalar / len;
  vp_reach (kc / cc + kt / ct <= 1 ? "free" : kt / ct < 1 && kc <= jc * wc / (c.vt + wc) * (1 - kt / ct) ? "semi" : "full");
  if (nc && !nt) vp_reach ("cars-only");
  if (nt && !nc) vp_reach ("trucks-only");
  return 0;
}
