// vp-sources: core multiclass dta_gradient_utls dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: one-class two-class slow fast reset trips same-place
// vp-bounds: emissions: two links with 5 speeds (below, within and above the range of the rate curves), 3 updates with resets after 1-3; the counts of combustion and electric vehicles of one link and class at a time arbitrary multiples of 1/2 up to 20 in the later updates; trips: up to three vehicles of either class on or off the links, one replaced by a later vehicle at the same address
// vp-time: 300 900
#include "vp.h"
#include "multiclass.h"
#include <cmath>
#include <new>
struct E1 : MNM_Dlink
{
  double n = 0, e = 0, t = 1; int lab = -1;
  E1 (int id) : MNM_Dlink (id, 1, 100, 10) {}
  TFlt get_link_tt () override { return t; }
  std::vector<TFlt> get_link_flow_emission (TInt l) override { lab = l; return { n, e }; }
};
struct E2 : MNM_Dlink_Multiclass
{
  double n[2] = { 0, 0 }, e[2] = { 0, 0 }, t = 1; int lab[2] = { -1, -1 };
  E2 (int id) : MNM_Dlink_Multiclass (id, 1, 100, 10, 8) {}
  TFlt get_link_tt () override { return t; }
  std::vector<TFlt> get_link_flow_emission_car (TInt l) override { lab[0] = l; return { n[0], e[0] }; }
  std::vector<TFlt> get_link_flow_emission_truck (TInt l) override { lab[1] = l; return { n[1], e[1] }; }
};
static double poly (double v, std::initializer_list<double> c) { double r = 0; for (double x : c) r = r * v + x; return r; }
static double pos (double x) { return x > 0 ? x : 0; }
// the published speed curves
static double fuel (double v) { return pos (1 / poly (v, { 1.19102380e-07, -2.67383161e-05, 2.35409750e-03, -1.11752399e-01, 2.96137050, -1.51623933 })); }
static void rates (double v, double *r)
{
  r[0] = fuel (v); r[1] = 8887 * r[0];
  r[2] = pos (poly (v, { 1.61479076909784e-13, -1.27884474982285e-10, 2.92924270300974e-8, -3.23670086149171e-6, 0.000201135990745703, -0.00737871178398462, 0.15792241257931, -1.82687242201925, 9.84559996919605 }));
  r[3] = pos (poly (v, { -1.08317411174986e-12, 2.53340626614398e-10, -2.12944112670644e-8, 5.97070024385679e-7, 1.79281854904105e-5, -0.00170366500109581, 0.047711166912908, -0.615061016205463, 4.12900319568868 }));
  r[4] = pos (poly (v, { -6.52009367269462e-13, 1.25335312366681e-10, -4.67202313364846e-9, -6.63892272105462e-7, 8.01942113220463e-5, -0.00374632777368871, 0.0895029037098895, -1.07265851515536, 6.06514023873933 }));
}
static void truck (double v, double *r)
{
  static const double K[3][5] = { { 1.53, 1.53, 1.87, 3.97, 7.32 }, { 1.50, 1.50, 2.41, 2.67, 6.03 }, { 1.55, 1.55, 2.01, 5.01, 5.75 } };
  rates (v, r);
  for (int k = 0; k < 5; k++) r[k] *= K[v < 25 ? 0 : v < 55 ? 1 : 2][k];
}
static int close (double a, double b) { return vp_and (a - b <= 1e-5, b - a <= 1e-5); }
extern "C" int vp_main ()
{
  static const double MPH[] = { 2, 20, 40, 60, 80 };
  int what = vp_choose ("what", 3);
  if (what == 2)
    {
      MNM_Cumulative_Emission_Multiclass em (5, 0, 1, 2);
      E2 *a = new E2 (1), *off = new E2 (2);
      em.register_link (a);
      MNM_Veh_Factory_Multiclass vf;
      int cls[4], on[4], cars = 0, trucks = 0; MNM_Veh_Multiclass *v[3];
      for (int i = 0; i < 3; i++)
        {
          cls[i] = vp_choose ("class", 2); on[i] = vp_choose ("on", 2);
          v[i] = vf.make_veh_multiclass (0, MNM_TYPE_STATIC, cls[i]);
          v[i]->set_current_link (on[i] ? (MNM_Dlink *) a : (MNM_Dlink *) off);
          if (on[i]) (cls[i] ? trucks : cars)++;
        }
      em.update (&vf); em.update (&vf);
      vp_assert ((int) em.m_car_set.size () == cars && (int) em.m_truck_set.size () == trucks, "every-vehicle-on-the-links-is-one-trip");
      vp_reach ("trips");
      if (vp_choose ("next", 2))
        {
          // the first vehicle has arrived; a later one happens to be stored in the same place
          cls[3] = vp_choose ("class", 2);
          vf.m_veh_map.erase (v[0]->m_veh_ID);
          v[0]->~MNM_Veh_Multiclass ();
          v[0] = new (v[0]) MNM_Veh_Multiclass (77, cls[3], 3);
          v[0]->set_current_link (a);
          vf.m_veh_map.insert ({ 77, v[0] });
          (cls[3] ? trucks : cars)++;
          em.update (&vf);
          vp_assert ((int) em.m_car_set.size () == cars && (int) em.m_truck_set.size () == trucks, "a-later-vehicle-is-another-trip");
          vp_reach ("same-place");
        }
      std::string s = em.output ();
      vp_assert (s.find ("number of trips: " + std::to_string (cars) + " trips") != std::string::npos, "report-states-the-trips");
      return 0;
    }
  int freq = what ? 1 : 1 + vp_choose ("frequency", 3);
  double acc[2][7] = { { 0 } }, vht[2] = { 0, 0 };
  MNM_Cumulative_Emission *em = what ? new MNM_Cumulative_Emission_Multiclass (4, 0, 1, 2) : new MNM_Cumulative_Emission (4, freq, 1);
  MNM_Cumulative_Emission_Multiclass *mc = what ? (MNM_Cumulative_Emission_Multiclass *) em : nullptr;
  vp_reach (what ? "two-class" : "one-class");
  E1 *a[2]; E2 *b[2]; double mph[2];
  int vary = vp_choose ("vary", what ? 3 : 2); // which count is arbitrary: link 1 (either class), link 2
  for (int i = 0; i < 2; i++)
    {
      int k = i ? 2 : vp_choose ("speed", 5);
      mph[i] = MPH[k]; if (k == 0) vp_reach ("slow"); if (k == 4) vp_reach ("fast");
      double t = 100 / (mph[i] * 1600 / 3600);
      if (what) { b[i] = new E2 (i + 1); b[i]->t = t; em->register_link (b[i]); } else { a[i] = new E1 (i + 1); a[i]->t = t; em->register_link (a[i]); }
    }
  MNM_Veh_Factory_Multiclass vf;
  for (int round = 0; round < 3; round++)
    {
      for (int i = 0; i < 2; i++)
        for (int c = 0; c <= what; c++)
          {
            int sym = round && (vary == 2 ? i == 0 && c == 1 : i == vary && c == 0);
            double n = sym ? vp_dy ("combustion", 0, 40, 1) : 3 + i + 2 * c + round, e = sym ? vp_dy ("electric", 0, 40, 1) : 1 + 2 * i + c, r[5], cl = mph[i] < 5 ? 5 : mph[i] > 65 ? 65 : mph[i], miles = mph[i] * 4 / 3600;
            if (what) { b[i]->n[c] = n; b[i]->e[c] = e; } else { a[i]->n = n; a[i]->e = e; }
            if (c) truck (cl, r); else rates (cl, r);
            for (int k = 0; k < 5; k++) acc[c][k] += r[k] * miles * n;
            acc[c][5] += miles * (n + e); acc[c][6] += miles * e;
            vht[c] += (n + e) * 4 / 3600;
          }
      em->update (&vf);
      if (!what && (round + 1) % freq == 0) { for (double &x : acc[0]) x = 0; vp_reach ("reset"); }
      for (int c = 0; c <= what; c++)
        {
          double got[7] = { em->m_fuel, em->m_CO2, em->m_HC, em->m_CO, em->m_NOX, em->m_VMT, em->m_VMT_ev };
          if (c) { double g[7] = { mc->m_fuel_truck, mc->m_CO2_truck, mc->m_HC_truck, mc->m_CO_truck, mc->m_NOX_truck, mc->m_VMT_truck, mc->m_VMT_ev_truck }; for (int k = 0; k < 7; k++) got[k] = g[k]; }
          static const char *Q[] = { "fuel", "co2", "hc", "co", "nox", "vehicle-miles", "electric-vehicle-miles" };
          for (int k = 0; k < 7; k++) vp_assert (close (got[k], acc[c][k]), Q[k]);
          if (what) vp_assert (close (c ? mc->m_VHT_truck : mc->m_VHT_car, vht[c]), "vehicle-hours");
        }
    }
  for (int i = 0; i < 2; i++) vp_assert (what ? b[i]->lab[0] == 1 && b[i]->lab[1] == 2 : a[i]->lab == 1, "electric-vehicles-by-the-label-of-their-class");
  return 0;
}
