// vp-sources: core io
// vp-reach: saved buffer cost two-paths curve empty-curve measure
// vp-bounds: route tables of two pairs with 1-2 routes over a 4-node network, buffers of 1-3 columns with arbitrary values (multiples of 1/8 up to 128) and recorded travel times and disutilities, written by save_path_table and read back by load_path_table (and the time and disutility files line by line); cumulative curve dump of three links, one without curves, arbitrary counts (multiples of 1/8) at two moments; length, free-flow time and current time of routes of 1-3 links with arbitrary link lengths and speeds 1, 2, 4, 8
// vp-time: 240 1200
#include "vp.h"
#include "path.h"
#include "io.h"
#include "links_common.h"
#include <fstream>
static std::vector<double> numbers (const std::string &file, size_t line, bool &ok)
{
  std::ifstream f (file);
  std::string s;
  std::vector<double> r;
  ok = true;
  for (size_t i = 0; i <= line; i++) if (!std::getline (f, s)) { ok = false; return r; }
  for (auto &w : MNM_IO::split (s, ' ')) r.push_back (std::stod (w));
  return r;
}
static std::vector<std::string> lines (const std::string &file)
{
  std::ifstream f (file);
  std::string s;
  std::vector<std::string> r;
  while (std::getline (f, s)) r.push_back (s);
  return r;
}
struct L5 { int id, from, to; };
static const L5 LK[5] = { { 11, 1, 2 }, { 12, 1, 3 }, { 13, 2, 4 }, { 14, 3, 4 }, { 15, 2, 3 } };
static MNM_Path *route (std::vector<int> l)
{
  MNM_Path *p = new MNM_Path ();
  p->m_node_vec.push_back (LK[l[0] - 11].from);
  for (int i : l) { p->m_link_vec.push_back (i); p->m_node_vec.push_back (LK[i - 11].to); }
  return p;
}
extern "C" int vp_main ()
{
  int part = vp_choose ("part", 3);
  MNM_OD_Factory of;
  MNM_Link_Factory lf;
  if (part == 0)
    {
      macposts::Graph g;
      for (int i = 1; i <= 4; i++) g.add_node (i);
      for (auto &l : LK) g.add_link (l.from, l.to, l.id);
      int cols = vp_choose ("columns", 4); // 0: no buffer file
      bool cost = vp_choose ("cost", 2), second = vp_choose ("second", 2);
      Path_Table t;
      MNM_Pathset *a = new MNM_Pathset (), *b = new MNM_Pathset ();
      a->m_path_vec.push_back (route ({ 11, 15, 14 }));
      if (second) { a->m_path_vec.push_back (route ({ 12, 14 })); vp_reach ("two-paths"); }
      b->m_path_vec.push_back (route ({ 15 }));
      t[1] = new std::unordered_map<TInt, MNM_Pathset *> ();
      t[2] = new std::unordered_map<TInt, MNM_Pathset *> ();
      (*t[1])[4] = a; (*t[2])[3] = b;
      std::vector<MNM_Path *> all (a->m_path_vec.begin (), a->m_path_vec.end ());
      all.push_back (b->m_path_vec[0]);
      for (auto *p : all)
        {
          if (cols) p->allocate_buffer (cols);
          for (int i = 0; i < cols; i++) p->m_buffer[i] = vp_dy ("flow", 0, 1024, 3);
          if (cost) for (int i = 0; i < 2; i++) { p->m_travel_time_vec.push_back (vp_dy ("time", 0, 1024, 3)); p->m_travel_disutility_vec.push_back (vp_dy ("disutility", 0, 1024, 3)); }
        }
      std::string d = vp_dir ();
      MNM::save_path_table (d, &t, &of, cols > 0, cost);
      Path_Table *r = MNM_IO::load_path_table (d + "/path_table", g, (int) all.size (), cols > 0);
      vp_reach ("saved");
      vp_assert (lines (d + "/path_table").size () == all.size (), "one-line-per-route");
      vp_assert (r->size () == 2 && r->count (1) && r->count (2), "same-origins");
      vp_assert ((*r)[1]->size () == 1 && (*r)[1]->count (4) && (*r)[2]->size () == 1 && (*r)[2]->count (3), "same-destinations");
      // the lines of the time and disutility files belong to the routes of the table, in its order
      size_t ln = 0;
      std::vector<std::string> rows = lines (d + "/path_table");
      for (auto *ps : { a, b })
        {
          auto &pv = (ps == a ? (*(*r)[1])[4] : (*(*r)[2])[3])->m_path_vec;
          vp_assert (pv.size () == ps->m_path_vec.size (), "same-number-of-routes");
          for (size_t k = 0; k < pv.size (); k++)
            {
              MNM_Path *w = ps->m_path_vec[k], *q = pv[k];
              vp_assert (q->m_node_vec.size () == w->m_node_vec.size () && q->m_link_vec.size () == w->m_link_vec.size (), "same-length");
              for (size_t i = 0; i < w->m_node_vec.size (); i++) vp_assert (q->m_node_vec[i] == w->m_node_vec[i], "same-nodes");
              for (size_t i = 0; i < w->m_link_vec.size (); i++) vp_assert (q->m_link_vec[i] == w->m_link_vec[i], "same-links");
              vp_assert (q->m_buffer_length == cols, "same-buffer-length");
              for (int i = 0; i < cols; i++) { vp_reach ("buffer"); vp_assert (q->m_buffer[i] == w->m_buffer[i], "same-buffer-values"); }
              if (cost)
                {
                  vp_reach ("cost");
                  std::string nodes;
                  for (int n : w->m_node_vec) nodes += (nodes.empty () ? "" : " ") + std::to_string (n);
                  for (ln = 0; ln < rows.size () && rows[ln] != nodes; ln++) ;
                  vp_assert (ln < rows.size (), "route-is-a-line");
                  bool ok1, ok2;
                  std::vector<double> tv = numbers (d + "/path_table_time", ln, ok1), dv = numbers (d + "/path_table_disutility", ln, ok2);
                  vp_assert (ok1 && ok2 && tv.size () == 2 && dv.size () == 2, "times-and-disutilities-of-every-route");
                  for (int i = 0; i < 2; i++) { vp_assert (tv[i] == w->m_travel_time_vec[i], "same-times"); vp_assert (dv[i] == w->m_travel_disutility_vec[i], "same-disutilities"); }
                }
            }
        }
      return 0;
    }
  if (part == 1)
    {
      // dump of the cumulative curves
      double cin[2][2], cout[2][2];
      for (int k = 0; k < 3; k++)
        {
          MNM_Dlink *l = lf.make_link (11 + k, MNM_TYPE_PQ, 1000, 1000, 1, 4, 1, 4, 1);
          if (k == 2) { vp_reach ("empty-curve"); continue; }
          l->install_cumulative_curve ();
          for (int i = 0; i < 2; i++)
            {
              cin[k][i] = vp_dy ("in", 1, 512, 3); cout[k][i] = vp_dy ("out", 1, 512, 3);
              l->m_N_in->add_increment (std::make_pair (TFlt (i + 1), TFlt (cin[k][i])));
              l->m_N_out->add_increment (std::make_pair (TFlt (i + 2), TFlt (cout[k][i])));
            }
        }
      std::string d = vp_dir ();
      MNM_IO::dump_cumulative_curve (d, &lf, "cc");
      std::vector<std::string> rows = lines (d + "/cc");
      vp_reach ("curve");
      size_t want = 0;
      for (int k = 0; k < 2; k++)
        for (int out = 0; out < 2; out++)
          {
            // a curve: "<link>,in|out,<time>,<count>", then a line "<time>,<count>" per further record
            MNM_Cumulative_Curve *c = out ? lf.get_link (11 + k)->m_N_out : lf.get_link (11 + k)->m_N_in;
            std::string pre = std::to_string (11 + k) + (out ? ",out," : ",in,");
            int hits = 0;
            want += c->m_recorder.size ();
            for (size_t q = 0; q < rows.size (); q++)
              if (rows[q].compare (0, pre.size (), pre) == 0)
                {
                  hits++;
                  for (size_t i = 0; i < c->m_recorder.size (); i++)
                    {
                      vp_assert (q + i < rows.size (), "every-record-written");
                      std::vector<std::string> w = MNM_IO::split (i ? rows[q + i] : rows[q].substr (pre.size ()), ',');
                      vp_assert (w.size () == 2, "record-is-time-and-count");
                      vp_assert (std::stod (w[0]) == c->m_recorder[i].first, "record-time");
                      vp_assert (std::stod (w[1]) == c->m_recorder[i].second, "record-count");
                    }
                }
            vp_assert (hits == 1, "each-curve-once");
          }
      vp_assert (rows.size () == want, "nothing-else-written");
      return 0;
    }
  // measures of a route
  int n = 1 + vp_choose ("links", 3);
  MNM_Path p;
  double len = 0, ff = 0;
  for (int i = 0; i < n; i++)
    {
      double l = vp_dy ("length", 8, 1024, 3), v = 1 << vp_choose ("speed", 4);
      MNM_Dlink *k = lf.make_link (11 + i, MNM_TYPE_PQ, 1000, 1000, 1, l, v, 4, 1);
      p.m_link_vec.push_back (11 + i);
      len += l; ff += l / v;
      (void) k;
    }
  vp_reach ("measure");
  vp_assert (p.get_path_length (&lf) == len, "route-length-is-the-sum-of-its-links");
  vp_assert (p.get_path_fftt (&lf) == ff, "free-flow-time-is-the-sum-of-its-links");
  vp_assert (p.get_path_tt (&lf) == ff, "an-empty-route-takes-its-free-flow-time");
  return 0;
}
