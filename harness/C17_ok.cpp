// vp-sources: core dta routing statistics pre_routing io vms workzone emission gridlock_checker
// vp-reach: accepted count link unreachable origin destination
// vp-bounds: the network of C17_load; any announced numbers of nodes and links (4-6 in the check against 5), origins and destinations (1-2); a destination cut off; a link into the origin or out of the destination
// vp-time: 120 300
#include "dta_common.h"
extern "C" int vp_main ()
{
  Spec s;
  int w = vp_choose ("what", 5);
  s.routing = "Adaptive";
  std::string d = put (s);
  bool good = true;
  // the network is read with the right numbers, then compared with the announced ones
  if (w == 1) { vp_write ((d + "/graph").c_str (), "1 1 2\n2 2 3\n3 5 3\n5 3 2\n4 5 4\n", nullptr); good = false; vp_reach ("unreachable"); }
  if (w == 2) { vp_write ((d + "/graph").c_str (), "1 1 2\n2 2 3\n3 2 1\n5 5 3\n4 3 4\n", nullptr); good = false; vp_reach ("origin"); }
  if (w == 3) { vp_write ((d + "/graph").c_str (), "1 1 2\n2 2 3\n3 4 5\n5 5 3\n4 3 4\n", nullptr); good = false; vp_reach ("destination"); }
  MNM_Dta dta (d);
  dta.build_from_files ();
  dta.hook_up_node_and_link ();
  for (auto &p : dta.m_node_factory->m_node_map)
    {
      const auto &n = dta.m_graph.get_node (p.first); int in = 0, out = 0;
      if (auto *x = dynamic_cast<MNM_Dnode_Inout *> (p.second))
        {
          for (const auto &l : dta.m_graph.connections (n, macposts::graph::Direction::Incoming)) { in++; MNM_Dlink *k = dta.m_link_factory->get_link (dta.m_graph.get_id (l)); vp_assert (k->m_to_node == x, "link-knows-the-node-it-ends-at"); int c = 0; for (auto *y : x->m_in_link_array) c += y == k; vp_assert (c == 1, "incoming-link-hooked-up-once"); }
          for (const auto &l : dta.m_graph.connections (n, macposts::graph::Direction::Outgoing)) { out++; MNM_Dlink *k = dta.m_link_factory->get_link (dta.m_graph.get_id (l)); vp_assert (k->m_from_node == x, "link-knows-the-node-it-starts-at"); int c = 0; for (auto *y : x->m_out_link_array) c += y == k; vp_assert (c == 1, "outgoing-link-hooked-up-once"); }
          vp_assert ((int) x->m_in_link_array.size () == in && (int) x->m_out_link_array.size () == out, "no-other-link-hooked-up");
        }
    }
  if (w == 4)
    {
      int a[4] = { vp_choose ("nodes", 3) + 4, vp_choose ("links", 3) + 4, vp_choose ("origins", 2) + 1, vp_choose ("dests", 2) + 1 };
      const char *K[] = { "num_of_node", "num_of_link", "num_of_O", "num_of_D" };
      for (int i = 0; i < 4; i++) dta.m_config->m_configFile->content_[std::string ("DTA/") + K[i]] = Chameleon (I (a[i]));
      good = a[0] == 5 && a[1] == 5 && a[2] == 1 && a[3] == 1;
      vp_reach ("count"); if (a[1] != 5) vp_reach ("link");
    }
  if (good) vp_reach ("accepted");
  vp_assert (dta.is_ok () == good, "accepted-iff-consistent-and-connected");
  return 0;
}
