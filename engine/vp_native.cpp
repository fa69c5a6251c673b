// Native side of the harness API: replays a recorded model.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/stat.h>
struct Rec { std::string name; double v; };
static std::vector<Rec> recs;
static std::vector<int> rands;
static std::vector<int> randq;
static size_t rqpos = 0;
static size_t pos = 0, rpos = 0;
static bool loaded = false;
static int tier = 0, nviol = 0;
static FILE *out = stdout;
static void load ()
{
  if (loaded) return;
  loaded = true;
  if (getenv ("VP_TIER_N")) tier = atoi (getenv ("VP_TIER_N"));
  const char *o = getenv ("VP_OUT");
  if (o) out = fopen (o, "w");
  const char *f = getenv ("VP_REPLAY");
  FILE *fp = f ? fopen (f, "r") : nullptr;
  if (!fp) { fprintf (stderr, "VP_REPLAY not set or unreadable\n"); _exit (9); }
  char line[1024];
  while (fgets (line, sizeof line, fp))
    {
      char name[512]; char val[512];
      if (sscanf (line, "IN %500s %500s", name, val) != 2) continue;
      double v = strtod (val, nullptr);
      if (!strcmp (name, "rand")) rands.push_back ((int) v);
      else recs.push_back (Rec{ name, v });
    }
  fclose (fp);
}
static double next (const char *name, double dflt)
{
  load ();
  if (pos >= recs.size ()) { fprintf (out, "DIVERGED missing %s\n", name); fflush (out); return dflt; }
  if (recs[pos].name != name)
    { fprintf (out, "DIVERGED want %s have %s\n", name, recs[pos].name.c_str ()); fflush (out); _exit (77); }
  return recs[pos++].v;
}
extern "C"
{
int vp_int (const char *n, int lo, int) { return (int) next (n, lo); }
double vp_dy (const char *n, int lo, int, int g) { return next (n, std::ldexp ((double) lo, -g)); }
int vp_choose (const char *n, int) { return (int) next (n, 0); }
void vp_assume_ (int c) { if (!c) { fprintf (out, "ASSUME_FAILED\n"); fflush (out); _exit (77); } }
void vp_assert_ (int c, const char *id)
{ if (!c) { ++nviol; fprintf (out, "VIOL %s\n", id); fflush (out); } }
void vp_reach (const char *) {}
void vp_obs_i (const char *n, long v) { fprintf (out, "OBS %s %ld\n", n, v); fflush (out); }
void vp_obs_d (const char *n, double v) { fprintf (out, "OBS %s %.17g\n", n, v); fflush (out); }
int vp_tier () { load (); return tier; }
int vp_conc (int v) { return v; }
double vp_concd (double v) { return v; }
void vp_rand_limit (int) {}
void vp_rand_push (int v) { randq.push_back (v); }
const char *vp_dir ()
{
  static char d[64];
  snprintf (d, sizeof d, "native_d%d", (int) getpid ()); mkdir (d, 0777); return d;
}
void vp_write (const char *path, const char *t, const double *vals)
{
  FILE *f = fopen (path, "w");
  for (; *t; t++) if (*t == '%') fprintf (f, "%.17g", *vals++); else fputc (*t, f);
  fclose (f);
}
void vp_merge_exit () { fprintf (out, "END\n"); fflush (out); _exit (nviol ? 3 : 0); }
int vp_and (int a, int b) { return a && b; }
int vp_or (int a, int b) { return a || b; }
int vp_not (int a) { return !a; }
// the C library's generator is replaced by the recorded draws
int rand () { load (); if (rqpos < randq.size ()) return randq[rqpos++]; if (rpos >= rands.size ()) return 0; return rands[rpos++]; }
void srand (unsigned) {}
int vp_main (void);
}
int main ()
{
  load ();
  vp_main ();
  fprintf (out, "END\n"); fflush (out);
  _exit (nviol ? 3 : 0);
}
