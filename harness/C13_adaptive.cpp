// vp-sources: core routing statistics pre_routing
// vp-reach: direct detour stale arrived recorded static off
// vp-bounds: the same network with a dead end; any travel times (multiples of 1/4 up to 64 s) and tolls on the two alternatives, value of time 0, 0.5 or 2; re-routing every 1-2 intervals, vehicles at the origin and at the end of every link; adaptive routing alone and combined with fixed routing; the recorded average travel time over 1-3 intervals of any volumes and travel times (multiples of 1/8 up to 30)
// vp-time: 240 1500
#include "net_common.h"
#include "conf_common.h"
// a link reporting any volume and travel time
struct AnyLink : MNM_Dlink_Pq
{
  double x, tt;
  AnyLink () : MNM_Dlink_Pq (11, 20, 4, 1, 10, 10, 1, 1), x (0), tt (1) {}
  TFlt get_link_flow () override { return x; }
  TFlt get_link_tt () override { return tt; }
};
extern "C" int vp_main ()
{
  Net n (true);
  MNM_ConfReader *rec = conf ("STAT", { { "rec_volume", "1" }, { "rec_tt", "1" }, { "rec_mode_para", "1" }, { "volume_load_automatic_rec", "0" }, { "volume_record_automatic_rec", "0" }, { "tt_load_automatic_rec", "0" }, { "tt_record_automatic_rec", "0" } });
  MNM_Statistics_Lrn st (".", nullptr, rec, &n.of, &n.nf, &n.lf);
  if (vp_choose ("what", 3) == 2)
    {
      // the recorded travel time is the average over the recording intervals
      int N = 1 + vp_choose ("average", 3);
      st.m_n = N;
      AnyLink *l = new AnyLink (); n.lf.m_link_map[11] = l;
      MNM_Dlink_Pq *m = (MNM_Dlink_Pq *) n.lf.get_link (12);
      st.init_record ();
      double sum = 0, sumv = 0;
      for (int t = 0; t <= 2 * N; t++)
        {
          double x = l->x = vp_dy ("volume", 0, 240, 3), tt = l->tt = vp_dy ("time", 0, 240, 3);
          st.update_record (t);
          vp_assert (st.m_load_interval_tt[11] == tt && st.m_load_interval_volume[11] == x, "current-time-and-volume-recorded");
          vp_assert (st.m_record_interval_tt[12] == m->get_link_freeflow_tt (), "empty-link-records-free-flow");
          if (t == 0) { vp_assert (st.m_record_interval_tt[11] == tt && st.m_record_interval_volume[11] == x, "first-record-is-the-first-value"); continue; }
          sum += tt; sumv += x;
          if (t % N == 0)
            {
              vp_reach ("recorded");
              double e = st.m_record_interval_tt[11] - sum / N, ev = st.m_record_interval_volume[11] - sumv / N;
              vp_assert (e < 1e-6 && e > -1e-6, "recorded-time-is-the-average");
              vp_assert (ev < 1e-6 && ev > -1e-6, "recorded-volume-is-the-average");
              sum = sumv = 0;
            }
        }
      return 0;
    }
  st.init_record ();
  double freq = 1 + vp_choose ("freq", 2);
  double ratio = vp_choose ("ratio", 2) ? 0.5 : 0;
  int hybrid = vp_choose ("hybrid", 2);
  const char *dir = vp_dir ();
  { double vals[] = { freq, ratio }; vp_write ((std::string (dir) + "/config.conf").c_str (), "# routing\n[ADAPTIVE]\nroute_frq = %\nvot = 20\n[DTA]\nadaptive_ratio = %\n", vals); }
  MNM_Routing_Adaptive *A; MNM_Routing *R; MNM_Routing_Hybrid *H = nullptr;
  if (hybrid) { R = H = new MNM_Routing_Hybrid (dir, n.g, &st, &n.of, &n.nf, &n.lf, 2, 2); A = H->m_routing_adaptive; n.paths (2); for (int i = 0; i < 2; i++) for (int c = 0; c < 2; c++) n.P[i]->m_buffer[c] = 1 - i; }
  else { R = A = new MNM_Routing_Adaptive (dir, n.g, &st, &n.of, &n.nf, &n.lf); A->m_working = true; }
  vp_assert (A->m_routing_freq == (int) freq, "frequency-from-the-configuration");
  vp_assert (A->m_vot * 3600 < 20.0001 && A->m_vot * 3600 > 19.9999, "value-of-time-from-the-configuration");
  R->init_routing (n.pt);
  bool on = !hybrid || ratio > 0;
  static const double VOT[] = { 0, 0.5, 2 }; A->m_vot = VOT[vp_choose ("vot", 3)];
  double c[2][2], tol[2]; // [interval][alternative]
  for (int i = 0; i < 2; i++) { tol[i] = vp_dy ("toll", 0, 16, 1); n.lf.get_link (i ? 13 : 11)->m_toll = tol[i]; n.lf.get_link (12)->m_toll = 0; }
  MNM_Veh *a = n.veh (1, 0, MNM_TYPE_ADAPTIVE), *s = hybrid ? n.veh (2, 0, MNM_TYPE_STATIC) : nullptr;
  MNM_Veh *x = n.veh (3, 0, MNM_TYPE_ADAPTIVE); n.on->m_in_veh_queue.pop_back ();
  x->set_current_link (n.lf.get_link (10)); x->set_next_link (n.lf.get_link (10)); n.lf.get_link (10)->m_finished_array.push_back (x);
  MNM_Veh *y = n.veh (4, 0, MNM_TYPE_ADAPTIVE); n.on->m_in_veh_queue.pop_back ();
  y->set_current_link (n.lf.get_link (14)); y->set_next_link (n.lf.get_link (14)); n.lf.get_link (14)->m_finished_array.push_back (y);
  MNM_Veh *z = n.veh (5, 0, MNM_TYPE_ADAPTIVE); n.on->m_in_veh_queue.pop_back ();
  z->set_current_link (n.lf.get_link (12)); z->set_next_link (n.lf.get_link (12)); n.lf.get_link (12)->m_finished_array.push_back (z);
  for (int t = 0; t < 2; t++)
    {
      double t11 = vp_dy ("tt11", 1, 256, 2), t12 = vp_dy ("tt12", 1, 256, 2), t13 = 1;
      double tts[] = { 2, t11, t12, t13, 3, 1 };
      for (int i = 0; i < 6; i++) st.m_record_interval_tt[10 + i] = tts[i];
      c[t][0] = t11 * A->m_vot + tol[0]; c[t][1] = (t12 + t13) * A->m_vot + tol[1];
      R->update_routing (t);
      if (!on)
        {
          vp_reach ("off");
          vp_assert (a->get_next_link () == nullptr && x->get_next_link () == n.lf.get_link (10), "without-adaptive-drivers-nothing-is-rerouted");
          continue;
        }
      int u = t - t % (int) freq; // interval of the last re-routing
      vp_assert (a->get_next_link () == n.lf.get_link (10), "from-the-origin-over-the-only-link");
      MNM_Dlink *nx = x->get_next_link ();
      vp_assert (nx == n.lf.get_link (11) || nx == n.lf.get_link (12), "next-link-leads-to-the-destination");
      if (nx == n.lf.get_link (11)) { vp_reach ("direct"); vp_assert (c[u][0] <= c[u][1], "next-link-is-on-a-cheapest-route"); }
      else { vp_reach ("detour"); vp_assert (c[u][1] <= c[u][0], "next-link-is-on-a-cheapest-route"); }
      if (u < t) vp_reach ("stale");
      vp_assert (y->get_next_link () == nullptr, "at-the-destination-there-is-no-next-link"); vp_reach ("arrived");
      vp_assert (z->get_next_link () == n.lf.get_link (13), "the-only-way-on");
      if (s) { vp_reach ("static"); vp_assert (s->get_next_link () == n.lf.get_link (10) && s->m_path == n.P[0], "route-follower-follows-its-route"); }
    }
  return 0;
}
