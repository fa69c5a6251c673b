#pragma once
#include "dta_common.h"
#include "due.h"
#include <cmath>
// DUE over the two-route network; value of time 1, early penalty 1/2, late penalty 2 per interval, target 3 intervals
static const char *DUE_CONF = "[DUE]\nvot = 720\nearly_penalty = 360\nlate_penalty = 1440\ntarget_time = 0.25\nlambda = 0.5\n";
static const std::vector<int> RA = { 1, 2, 4 }, RB = { 1, 3, 5, 4 };
static MNM_Path *mk (const std::vector<int> &l, int n)
{
  MNM_Path *p = new MNM_Path ();
  for (int x : l) p->m_link_vec.push_back (x);
  p->m_node_vec.push_back (1); p->m_node_vec.push_back (2); if (l.size () == 4) p->m_node_vec.push_back (5); p->m_node_vec.push_back (3); p->m_node_vec.push_back (4);
  p->allocate_buffer (n);
  return p;
}
static bool same (MNM_Path *p, const std::vector<int> &l) { if (p->m_link_vec.size () != l.size ()) return false; for (size_t i = 0; i < l.size (); i++) if (p->m_link_vec[i] != l[i]) return false; return true; }
