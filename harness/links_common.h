// shared by the link harnesses: concrete link parameter sets, vehicles
#pragma once
#include "vp.h"
#include "dlink.h"
#include "factory.h"
#include <stdexcept>
#include <vector>
struct LinkCfg { int type; double hold, flow; int lanes; double length, ffs, unit, scalar; const char *name; };
// dyadic parameters keep the arithmetic exact; 0.4 and 0.3 make fractional capacities
static const LinkCfg LCFG[] = {
  { 0, 0.125, 0.5, 1, 128, 16, 4, 1, "ctm-2cells" },
  { 0, 0.125, 0.4, 1, 200, 16, 4, 1, "ctm-3cells-fractional" },
  { 0, 0.125, 0.5, 1, 40, 16, 4, 2, "ctm-1cell" },
  { 0, 0.0625, 0.5, 1, 130, 16, 4, 1, "ctm-tight" },
  { 1, 0.125, 0.5, 1, 40, 16, 4, 1, "pq-short" },
  { 1, 0.125, 0.3, 2, 200, 16, 4, 1, "pq-3stamps-fractional" },
  { 2, 0.125, 0.5, 1, 128, 16, 4, 1, "lq" },
  { 2, 0.125, 0.4, 1, 64, 16, 4, 2, "lq-fractional" },
  { 3, 0.125, 0.5, 1, 128, 16, 4, 1, "ltm" },
  { 3, 0.125, 0.5, 1, 192, 16, 4, 2, "ltm-3" },
};
static const int NLCFG = sizeof (LCFG) / sizeof (LCFG[0]);
static MNM_Dlink *make (const LinkCfg &c, MNM_Link_Factory &f)
{
  DLink_type t = c.type == 0 ? MNM_TYPE_CTM : c.type == 1 ? MNM_TYPE_PQ : c.type == 2 ? MNM_TYPE_LQ : MNM_TYPE_LTM;
  return f.make_link (7, t, c.hold, c.flow, c.lanes, c.length, c.ffs, c.unit, c.scalar);
}
