// vp-sources: core routing statistics pre_routing
// vp-reach: first second zero late held arrived truck adaptive
// vp-bounds: two routes of 3 and 4 links; single-class routing with and without per-interval shares and two-class routing; shares among 6 combinations in the interval of departure (2 intervals of 2 loading steps, and departures after the last one); 2 route-following vehicles and 1 adaptive one with arbitrary random draws; each may be held one interval at any one place
// vp-time: 200 900
#include "net_common.h"
static const double W[6][2] = { { 1, 0 }, { 0, 1 }, { 1, 3 }, { 3, 1 }, { 0, 0 }, { 5, 2 } };
extern "C" int vp_main ()
{
  Net n;
  int kind = vp_choose ("kind", 3); // 0 shares per interval, 1 fixed shares, 2 two classes
  int cls = kind == 2 ? vp_choose ("class", 2) : 0;
  int ts = vp_choose ("depart", kind == 1 ? 2 : 6);
  int k = ts / 2; if (k > 1) { k = 1; if (kind == 2) return 0; vp_reach ("late"); }
  int w = vp_choose ("shares", 6);
  int len = kind == 2 ? 4 : kind == 0 ? 2 : 0;
  n.paths (len);
  int col = k + (kind == 2 ? 2 * cls : 0);
  for (int c = 0; c < len; c++)
    for (int i = 0; i < 2; i++) n.P[i]->m_buffer[c] = c == col ? W[w][i] : W[w][1 - i] + c;
  MNM_Routing_Fixed *R[2]; int nr = 1;
  if (kind == 2)
    {
      nr = 2;
      for (int c = 0; c < 2; c++) R[c] = new MNM_Routing_Biclass_Fixed (n.g, &n.of, &n.nf, &n.lf, 2, 4, c);
    }
  else if (kind == 0) R[0] = new MNM_Routing_Fixed (n.g, &n.of, &n.nf, &n.lf, 2, 2);
  else
    {
      R[0] = new MNM_Routing_Fixed (n.g, &n.of, &n.nf, &n.lf);
      for (int i = 0; i < 2; i++) n.P[i]->m_p = W[w][i];
      MNM::normalize_path_table_p (n.pt);
    }
  for (int c = 0; c < nr; c++) R[c]->init_routing (n.pt);
  auto update = [&] (int t) { for (int c = 0; c < nr; c++) R[c]->update_routing (t); };
  int t = 0;
  for (; t < ts; t++) update (t);
  MNM_Veh *v[3]; int draw[3];
  for (int i = 0; i < 3; i++)
    {
      v[i] = n.veh (i, t, i < 2 ? MNM_TYPE_STATIC : MNM_TYPE_ADAPTIVE, cls);
      draw[i] = vp_int ("draw", 0, 2147483647); vp_rand_push (draw[i]);
    }
  if (cls) vp_reach ("truck");
  int hold = vp_choose ("hold", 5); // stay one interval more at this place
  update (t++);
  double tot = W[w][0] + W[w][1];
  double p0 = tot == 0 ? 0.5 : W[w][0] / tot;
  const MNM_Path *ch[3];
  for (int i = 0; i < 3; i++)
    {
      ch[i] = v[i]->m_path;
      vp_assert (ch[i] == n.P[0] || ch[i] == n.P[1], "route-of-its-origin-destination-pair");
      double r = draw[i] / 2147483647.;
      if (ch[i] == n.P[0]) { vp_reach ("first"); vp_assert (r <= p0 * 1.001, "first-route-chosen-by-its-share"); }
      else { vp_reach ("second"); vp_assert (r >= p0 * 0.999, "second-route-chosen-by-its-share"); }
      if (p0 == 0) vp_reach ("zero");
    }
  vp_assert (v[2]->get_next_link () == nullptr, "adaptive-vehicle-is-not-given-a-next-link");
  vp_reach ("adaptive");
  // drive both vehicles along
  size_t pos[2] = { 0, 0 };
  bool arr[2] = { false, false };
  for (int step = 0; step < 5; step++)
    {
      for (int i = 0; i < 2; i++)
        if (!arr[i])
          {
            MNM_Dlink *want = n.lf.get_link (ch[i]->m_link_vec[pos[i]]);
            vp_assert (v[i]->get_next_link () == want, "next-link-is-the-next-of-its-route");
          }
      if (step == hold)
        {
          vp_reach ("held");
          update (t++);
          for (int i = 0; i < 2; i++)
            {
              vp_assert (v[i]->m_path == ch[i], "held-vehicle-keeps-its-route");
              if (!arr[i]) vp_assert (v[i]->get_next_link () == n.lf.get_link (ch[i]->m_link_vec[pos[i]]), "held-vehicle-keeps-its-next-link");
            }
        }
      n.on->m_in_veh_queue.clear (); n.on->m_in_veh_queue.push_back (v[2]);
      for (int i = 0; i < 2; i++)
        {
          if (arr[i]) continue;
          MNM_Dlink *c = v[i]->get_current_link (), *x = v[i]->get_next_link ();
          if (c) c->m_finished_array.pop_front ();
          v[i]->set_current_link (x); x->m_finished_array.push_back (v[i]);
          pos[i]++;
        }
      update (t++);
      for (int i = 0; i < 2; i++)
        if (!arr[i] && pos[i] == ch[i]->m_link_vec.size ())
          {
            vp_assert (v[i]->get_next_link () == nullptr, "at-the-destination-there-is-no-next-link");
            v[i]->get_current_link ()->m_finished_array.pop_front ();
            arr[i] = true; vp_reach ("arrived");
          }
    }
  vp_assert (arr[0] && arr[1], "every-route-is-followed-to-its-end");
  vp_assert (v[2]->m_path == ch[2] && R[kind == 2 ? cls : 0]->m_tracker.size () == 2, "only-route-followers-are-tracked");
  for (int i = 0; i < 2; i++) { v[i]->finish (t + 1); for (int c = 0; c < nr; c++) R[c]->remove_finished (v[i], true); }
  for (int c = 0; c < nr; c++) vp_assert (R[c]->m_tracker.empty (), "finished-vehicles-are-forgotten");
  if (nr == 2) R[1]->m_path_table = nullptr;
  for (int c = 0; c < nr; c++) delete R[c];
  return 0;
}
