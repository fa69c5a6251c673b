// vp-sources: core
// vp-reach: zero scaled negative equal different
// vp-bounds: path sets of up to 3 paths: normalize_p for every non-negative share (multiples of 1/8 up to 128) and negative ones; membership test for link sequences of 0-3 arbitrary link ids; buffers of 1-3 columns, copies in both directions
#include "vp.h"
#include "path.h"
#include <stdexcept>
extern "C" int vp_main ()
{
  int part = vp_choose ("part", 3);
  if (part == 0)
    {
      MNM_Pathset s;
      int n = 1 + vp_choose ("paths", 3);
      double p[3], tot = 0;
      int neg = 0;
      for (int i = 0; i < n; i++)
        {
          MNM_Path *q = new MNM_Path ();
          p[i] = vp_dy ("p", -1024, 1024, 3);
          q->m_p = p[i]; tot += p[i];
          neg = vp_or (neg, p[i] < 0);
          s.m_path_vec.push_back (q);
        }
      bool threw = false;
      try { s.normalize_p (); } catch (const std::runtime_error &) { threw = true; }
      if (threw) { vp_reach ("negative"); vp_assert (neg, "only-negative-shares-are-rejected"); return 0; }
      vp_assert (vp_not (neg), "negative-shares-are-rejected");
      double sum = 0;
      bool zero = tot == 0;
      for (int i = 0; i < n; i++)
        {
          double r = s.m_path_vec[i]->m_p;
          sum += r;
          vp_assert (r >= 0, "share-non-negative");
          vp_assert (r <= 1.0000001, "share-at-most-one");
          if (zero) vp_assert (r * n > 0.999999 && r * n < 1.000001, "zero-total-gives-equal-shares");
          else { double d = r * tot - p[i]; vp_assert (d < 1e-6 && d > -1e-6, "shares-keep-their-proportion"); }
        }
      vp_assert (sum > 0.999999 && sum < 1.000001, "shares-sum-to-one");
      vp_reach (zero ? "zero" : "scaled");
      return 0;
    }
  if (part == 1)
    {
      MNM_Pathset s;
      MNM_Path a, c;
      MNM_Path *b = new MNM_Path ();
      int la = vp_choose ("la", 4), lb = vp_choose ("lb", 4);
      int same = la == lb;
      int va[4], vb[4];
      for (int i = 0; i < la; i++) a.m_link_vec.push_back (va[i] = vp_int ("a", 0, 3));
      for (int i = 0; i < lb; i++) b->m_link_vec.push_back (vb[i] = vp_int ("b", 0, 3));
      if (same) for (int i = 0; i < la; i++) same = vp_and (same, va[i] == vb[i]);
      vp_assert (!s.is_in (&a), "empty-set-has-no-member");
      MNM_Path *other = new MNM_Path ();
      other->m_link_vec.push_back (77);
      s.m_path_vec.push_back (other);
      s.m_path_vec.push_back (b);
      bool r = s.is_in (&a);
      if (r) { vp_reach ("equal"); vp_assert (same, "member-only-if-same-links"); }
      else { vp_reach ("different"); vp_assert (vp_not (same), "same-links-are-found"); }
      if (la > 0)
        {
          int probe = vp_int ("probe", 0, 4), in = 0;
          for (int i = 0; i < la; i++) in = vp_or (in, va[i] == probe);
          bool got = a.is_link_in (probe);
          if (got) vp_assert (in, "link-in-path-only-if-listed"); else vp_assert (vp_not (in), "listed-link-is-in-path");
        }
      return 0;
    }
  // buffers
  Path_Table t;
  MNM_Pathset s[2];
  MNM_Path *q[4];
  int cols = 1 + vp_choose ("cols", 3), col = vp_choose ("col", cols);
  t[1] = new std::unordered_map<TInt, MNM_Pathset *> ();
  t[2] = new std::unordered_map<TInt, MNM_Pathset *> ();
  t[1]->insert ({ 7, &s[0] });
  t[2]->insert ({ 8, &s[1] });
  double p[4], buf[4][3];
  for (int i = 0; i < 4; i++)
    {
      q[i] = new MNM_Path (); q[i]->m_path_ID = 50 + i;
      s[i / 2].m_path_vec.push_back (q[i]);
      p[i] = vp_dy ("p", 0, 1024, 3); q[i]->m_p = p[i];
    }
  vp_assert (MNM::get_pathset (&t, 1, 7) == &s[0] && MNM::get_pathset (&t, 2, 8) == &s[1], "pathset-lookup");
  for (int k = 0; k < 2; k++)
    {
      bool th = false;
      try { MNM::get_pathset (&t, k ? 3 : 1, k ? 7 : 8); } catch (const std::runtime_error &) { th = true; }
      vp_assert (th, "missing-od-pair-is-an-error");
    }
  std::unordered_map<TInt, MNM_Path *> dict;
  MNM::get_ID_path_mapping (dict, &t);
  vp_assert (dict.size () == 4, "id-mapping-size");
  for (int i = 0; i < 4; i++) vp_assert (dict[50 + i] == q[i], "id-mapping");
  MNM::allocate_path_table_buffer (&t, cols);
  bool th = false;
  try { q[0]->allocate_buffer (1); } catch (const std::runtime_error &) { th = true; }
  vp_assert (th, "double-allocation-is-an-error");
  for (int i = 0; i < 4; i++)
    {
      vp_assert (q[i]->m_buffer_length == cols, "buffer-length");
      for (int c = 0; c < cols; c++)
        { vp_assert (q[i]->m_buffer[c] == 0, "buffer-starts-at-zero"); q[i]->m_buffer[c] = buf[i][c] = vp_dy ("b", 0, 1024, 3); }
    }
  bool dir = vp_choose ("direction", 2);
  if (dir) MNM::copy_p_to_buffer (&t, col); else MNM::copy_buffer_to_p (&t, col);
  for (int i = 0; i < 4; i++)
    {
      vp_assert (q[i]->m_p == (dir ? p[i] : buf[i][col]), "share-after-copy");
      for (int c = 0; c < cols; c++)
        vp_assert (q[i]->m_buffer[c] == (dir && c == col ? p[i] : buf[i][c]), "buffer-after-copy");
    }
  return 0;
}
