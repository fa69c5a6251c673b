// Harness API.  Implemented twice: by the symbolic engine (engine/vpsym.cpp),
// where the inputs are solver variables and vp_assert is a solver query, and by
// engine/vp_native.cpp, where the inputs are read from a recorded model so the
// same harness replays a solver model against the natively compiled code.
#pragma once
extern "C"
{
  int vp_int (const char *name, int lo, int hi);   // any integer in [lo,hi]
  double vp_dy (const char *name, int lo, int hi, int g); // N*2^-g, N in [lo,hi]
  int vp_choose (const char *name, int n); // any of 0..n-1, explored case by case
  void vp_assume_ (int c);
  void vp_assert_ (int c, const char *id);
  void vp_reach (const char *id);          // reachability (vacuity) witness
  void vp_obs_i (const char *name, long v); // compared with the native run
  void vp_obs_d (const char *name, double v);
  int vp_tier ();                          // 0 quick, 1 thorough
  int vp_conc (int v);                     // split on the value of v (case by case)
  double vp_concd (double v);
  void vp_rand_limit (int n);              // after n more symbolic rand() draws a fixed fair sequence follows
  void vp_rand_push (int v);               // the next rand() returns v (first in, first out)
  const char *vp_dir ();                   // scratch directory of this run
  // write a file; every '%' of the template is replaced by the next value
  void vp_write (const char *path, const char *tmpl, const double *vals);
  void vp_merge_exit ();                   // end this path successfully
  // boolean combination without branching (keeps conditions in one formula)
  int vp_and (int a, int b);
  int vp_or (int a, int b);
  int vp_not (int a);
}
#define vp_assume(c) vp_assume_ ((c) ? 1 : 0)
#define vp_assert(c, id) vp_assert_ ((c) ? 1 : 0, id)
