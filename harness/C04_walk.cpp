// vp-sources: core
// vp-reach: cycle nested nocycle
// vp-bounds: eliminate_cycles: every walk of up to 4 links (thorough: 5) over 5 possible nodes, arbitrary repetition except consecutive
#include "vp.h"
#include "path.h"
extern "C" int vp_main ()
{
  int len = 1 + vp_choose ("len", vp_tier () ? 5 : 4);
  MNM_Path p;
  std::vector<int> nd (len + 1);
  for (int i = 0; i <= len; i++)
    {
      nd[i] = vp_int ("node", 0, 4);
      if (i) vp_assume (nd[i] != nd[i - 1]);
      p.m_node_vec.push_back (nd[i]);
      if (i) p.m_link_vec.push_back (100 + i); // link i joins nd[i-1] to nd[i]
    }
  p.eliminate_cycles ();
  size_t n = p.m_node_vec.size ();
  vp_assert (n >= 1 && p.m_link_vec.size () + 1 == n, "sizes-consistent");
  vp_assert (p.m_node_vec.front () == nd[0], "same-start");
  vp_assert (p.m_node_vec.back () == nd[len], "same-end");
  int distinct = 1, joined = 1;
  for (size_t i = 0; i < n; i++)
    for (size_t j = i + 1; j < n; j++) distinct = vp_and (distinct, p.m_node_vec[i] != p.m_node_vec[j]);
  for (size_t i = 0; i + 1 < n; i++)
    {
      int l = p.m_link_vec[i] - 100;
      joined = vp_and (joined, vp_and (nd[l - 1] == p.m_node_vec[i], nd[l] == p.m_node_vec[i + 1]));
    }
  vp_assert (distinct, "no-node-twice");
  vp_assert (joined, "links-join-their-nodes");
  int was = 1;
  for (int i = 0; i <= len; i++) for (int j = i + 1; j <= len; j++) was = vp_and (was, nd[i] != nd[j]);
  if (was) { vp_reach ("nocycle"); vp_assert ((int) n == len + 1, "acyclic-walk-unchanged"); }
  else { vp_reach ("cycle"); if (len >= 3 && n == 2) vp_reach ("nested"); }
  vp_obs_i ("n", (long) n);
  return 0;
}
