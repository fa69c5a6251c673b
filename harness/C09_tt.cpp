// vp-sources: core
// vp-reach: free congested jammed loaded
// vp-bounds: eight parameterisations of the four link models; any volume on the link (multiples of 1/4 from 0 to twice the storage, except within 0.1% of the storage); for the loaded link every vehicle count up to 6
// vp-time: 300 1800
#include "links_common.h"
static const int PICK[] = { 0, 1, 3, 4, 5, 6, 8, 9 };
extern "C" int vp_main ()
{
  const LinkCfg &c = LCFG[PICK[vp_choose ("link", 8)]];
  MNM_Link_Factory f;
  MNM_Dlink *l = make (c, f);
  double hold = c.hold * c.lanes * c.length;
  double ff = c.length / c.ffs;
  double crit = c.flow / c.ffs * c.lanes * c.length;
  if (vp_choose ("what", 2) == 0)
    {
      double x = vp_dy ("flow", 0, (int) (hold * 8), 2);
      vp_assume (x <= hold * 0.999 || x >= hold * 1.001);
      double tt = l->get_link_tt_from_flow (x);
      vp_assert (tt >= ff * (1 - 1e-6), "never-below-free-flow-time");
      if (x <= crit * (1 - 1e-9)) { vp_reach ("free"); vp_assert (tt <= ff * (1 + 1e-6), "free-flow-below-critical-density"); }
      if (x >= hold * (1 + 1e-9)) { vp_reach ("jammed"); vp_assert (tt == MNM_Ults::max_link_cost (), "jam-has-the-maximal-cost"); }
      if (x > crit * (1 + 1e-9) && x < hold * 0.99)
        {
          vp_reach ("congested");
          // triangular diagram: flow = capacity * (jam - density) / (jam - critical), time = volume / flow
          double q = c.flow * c.lanes * (hold - x);
          double d = tt * q - x * (hold - crit);
          vp_assert (d < 1e-6 * x * hold && d > -1e-6 * x * hold, "congested-time-from-the-triangular-diagram");
        }
      return 0;
    }
  // a loaded link reports the time of its own volume
  int n = vp_conc (vp_int ("count", 0, 6));
  for (int i = 0; i < n; i++)
    {
      MNM_Veh *v = new MNM_Veh (i, 0); v->set_next_link (l);
      if (vp_choose ("done", 2)) l->m_finished_array.push_back (v);
      else switch (c.type)
        {
        case 0: { MNM_Dlink_Ctm *q = (MNM_Dlink_Ctm *) l; q->m_cell_array[i % q->m_num_cells]->m_veh_queue.push_back (v); break; }
        case 1: ((MNM_Dlink_Pq *) l)->m_veh_queue.push_back (std::pair<MNM_Veh *, TInt> (v, 0)); break;
        case 2: ((MNM_Dlink_Lq *) l)->m_veh_queue.push_back (v); break;
        default: ((MNM_Dlink_Ltm *) l)->m_veh_queue.push_back (v);
        }
    }
  if (c.type == 0) { MNM_Dlink_Ctm *q = (MNM_Dlink_Ctm *) l; for (auto x : q->m_cell_array) x->m_volume = x->m_veh_queue.size (); q->m_cell_array.back ()->m_volume += l->m_finished_array.size (); }
  if (c.type == 1) ((MNM_Dlink_Pq *) l)->m_volume = n;
  if (c.type == 2) ((MNM_Dlink_Lq *) l)->m_volume = n;
  if (c.type == 3) ((MNM_Dlink_Ltm *) l)->m_volume = n;
  if (n) vp_reach ("loaded");
  vp_assert (l->get_link_flow () * c.scalar == n, "volume-counts-everyone");
  vp_assert (l->get_link_tt () == l->get_link_tt_from_flow (n / c.scalar), "time-of-the-current-volume");
  return 0;
}
