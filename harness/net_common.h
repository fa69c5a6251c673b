// A small network: 1 -10-> 2 -11-> 3 -14-> 4, detour 2 -12-> 5 -13-> 3, and a
// dead end 2 -15-> 6.  Origin node 1, destination node 4.
#pragma once
#include "vp.h"
#include "routing.h"
#include "dlink.h"
#include "dnode.h"
#include "od.h"
#include "path.h"
#include "vehicle.h"
#include "factory.h"
#include "statistics.h"
#include <stdexcept>
#include <vector>
struct Net
{
  macposts::Graph g;
  MNM_Node_Factory nf; MNM_Link_Factory lf; MNM_OD_Factory of; MNM_Veh_Factory vf;
  MNM_Origin *o; MNM_Destination *d;
  MNM_DMOND *on; MNM_DMDND *dn;
  Path_Table *pt;
  MNM_Path *P[2];
  void link (int id, int a, int b, double cap = 4)
  {
    MNM_Dlink *l = lf.make_link (id, MNM_TYPE_PQ, 20, cap, 1, 10, 10, 1, 1);
    MNM_Dnode *x = nf.get_node (a), *y = nf.get_node (b);
    l->hook_up_node (x, y); x->add_out_link (l); y->add_in_link (l);
    l->install_cumulative_curve ();
    g.add_link (a, b, id, macposts::Empty ());
  }
  Net (bool dead = false, double cap = 4)
  {
    on = (MNM_DMOND *) nf.make_node (1, MNM_TYPE_ORIGIN, 1);
    nf.make_node (2, MNM_TYPE_FWJ, 1); nf.make_node (3, MNM_TYPE_FWJ, 1);
    dn = (MNM_DMDND *) nf.make_node (4, MNM_TYPE_DEST, 1);
    nf.make_node (5, MNM_TYPE_FWJ, 1);
    for (int i = 1; i <= 5; i++) g.add_node (i, macposts::Empty ());
    if (dead) { nf.make_node (6, MNM_TYPE_FWJ, 1); g.add_node (6, macposts::Empty ()); }
    link (10, 1, 2, cap); link (11, 2, 3, cap); link (12, 2, 5, cap); link (13, 5, 3, cap); link (14, 3, 4, cap);
    if (dead) link (15, 2, 6, cap);
    o = of.make_origin (100, 4, 1, 1); d = of.make_destination (200);
    o->m_origin_node = on; on->hook_up_origin (o);
    d->m_dest_node = dn; dn->hook_up_destination (d);
    pt = nullptr; P[0] = P[1] = nullptr;
  }
  // the two routes with a buffer of the given length
  void paths (int len)
  {
    static const int A[] = { 10, 11, 14 }, B[] = { 10, 12, 13, 14 }, NA[] = { 1, 2, 3, 4 }, NB[] = { 1, 2, 5, 3, 4 };
    pt = new Path_Table ();
    auto *m = new std::unordered_map<TInt, MNM_Pathset *> ();
    MNM_Pathset *s = new MNM_Pathset ();
    for (int i = 0; i < 2; i++)
      {
        MNM_Path *p = P[i] = new MNM_Path ();
        p->m_path_ID = i;
        if (i) { for (int x : B) p->m_link_vec.push_back (x); for (int x : NB) p->m_node_vec.push_back (x); }
        else { for (int x : A) p->m_link_vec.push_back (x); for (int x : NA) p->m_node_vec.push_back (x); }
        if (len) p->allocate_buffer (len);
        s->m_path_vec.push_back (p);
      }
    m->insert (std::pair<TInt, MNM_Pathset *> (4, s));
    pt->insert (std::pair<TInt, std::unordered_map<TInt, MNM_Pathset *> *> (1, m));
  }
  MNM_Veh *veh (int id, int t, Vehicle_type ty, int cls = 0)
  {
    MNM_Veh *v = new MNM_Veh (id, t);
    v->m_type = ty; v->set_destination (d); v->set_origin (o); v->m_path = nullptr; v->m_class = cls;
    on->m_in_veh_queue.push_back (v);
    return v;
  }
};
