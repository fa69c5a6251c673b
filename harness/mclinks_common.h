// shared by the two-class link harnesses
#pragma once
#include "vp.h"
#include "multiclass.h"
#include <stdexcept>
#include <vector>
struct McCfg { int type; double hc, ht, qc, qt; int lanes; double length, vc, vt, unit, factor, scalar; };
static const McCfg MC[] = {
  { 0, 0.125, 0.0625, 0.5, 0.25, 1, 128, 16, 8, 4, 2, 1 },   // 2 cells
  { 0, 0.125, 0.0625, 0.4, 0.15, 2, 200, 16, 8, 4, 1.5, 1 }, // 3 cells, fractional
  { 0, 0.125, 0.0625, 0.5, 0.25, 1, 40, 16, 8, 4, 2, 2 },    // shorter than one cell
  { 1, 0.125, 0.0625, 0.5, 0.25, 1, 128, 16, 8, 4, 2, 1 },
  { 1, 0.125, 0.0625, 0.4, 0.15, 2, 64, 16, 8, 4, 1.5, 2 },
  { 2, 0.125, 0.0625, 0.5, 0.25, 1, 40, 16, 8, 4, 2, 1 },
  { 2, 0.125, 0.0625, 0.375, 0.25, 2, 200, 16, 8, 4, 2, 1 }, // 3 intervals
};
static const int NMC = sizeof (MC) / sizeof (MC[0]);
static MNM_Dlink_Multiclass *make_mc (const McCfg &c, MNM_Link_Factory_Multiclass &f)
{
  DLink_type_multiclass t = c.type == 0 ? MNM_TYPE_CTM_MULTICLASS : c.type == 1 ? MNM_TYPE_LQ_MULTICLASS : MNM_TYPE_PQ_MULTICLASS;
  return dynamic_cast<MNM_Dlink_Multiclass *> (f.make_link_multiclass (7, t, c.lanes, c.length, c.hc, c.ht, c.qc, c.qt, c.vc, c.vt, c.unit, c.factor, c.scalar));
}
// reference for the two-class fundamental diagram: densities seen by each class
// and the share of the road each class uses
struct Share { double pc, pt, fc, ft; };
static Share reference (const McCfg &c, double len, int nc, int nt, double qc, double qt)
{
  double L = c.lanes, jc = c.hc * L, jt = c.ht * L, cc = qc / c.vc, ct = qt / c.vt;
  double wc = qc / (jc - cc), wt = qt / (jt - ct), r1 = jc * wc / (c.vt + wc);
  double kc = nc / c.scalar / len, kt = nt / c.scalar / len, ac = kc / cc, at = kt / ct;
  if (ac + at <= 1)
    {
      double s = ac + at;
      return { kc + cc * at, kt + ct * ac, s > 0 ? ac / s : 1, s > 0 ? at / s : 0 };
    }
  if (at < 1 && kc <= r1 * (1 - at)) return { kc / (1 - at), ct, 1 - at, at };
  // both congested: one common speed u with kc/(jc wc/(u+wc)) + kt/(jt wt/(u+wt)) = 1
  if (nt == 0) { double u = (jc - kc) * wc / kc; return { kc, jt * wt / (u + wt), 1, 0 }; }
  if (nc == 0) { double u = (jt - kt) * wt / kt; return { jc * wc / (u + wc), kt, 0, 1 }; }
  double u = (jc * wc * jt * wt - kc * wc * jt * wt - kt * wt * jc * wc) / (kc * jt * wt + kt * jc * wc);
  double fc = kc * (u + wc) / (jc * wc), ft = kt * (u + wt) / (jt * wt);
  return { kc / fc, kt / ft, fc, ft };
}
