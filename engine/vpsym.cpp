// vpsym: a symbolic executor for LLVM IR, deciding harness assertions with z3.
//
// * Program memory is a real, fixed-address arena; every access is checked
//   against a byte-state map (red zones, freed blocks).  Symbolic scalars live in
//   a shadow table keyed by address.
// * Integers are mathematical Ints with a tracked interval; whenever the interval
//   of a result leaves the machine range the two's-complement wrap is written out
//   explicitly.  Doubles on a dyadic grid (N * 2^-g, |N| <= 2^53) are exact scaled
//   Ints; any other double result is a fresh Real within the IEEE-754
//   round-to-nearest error of the exact result (a sound over-approximation).
// * A branch with two feasible sides forks the process: the operating system's
//   copy-on-write provides backtracking, and sides run in parallel.
// * vp_assert(c) asks the solver for a model of (path condition and not c).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <vector>
#include <deque>
#include <cerrno>
#include <sys/stat.h>
#include <string>
#include <atomic>
#include <functional>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <cfenv>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <exception>
#include <cxxabi.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

using namespace llvm;
typedef __int128 i128;
typedef uint64_t u64;

// ---------------------------------------------------------------- options
static std::string optOut = ".", optEntry = "vp_main";
static double optTime = 300, optHang = 20e6;
static long optMaxPaths = 200000, optSamples = 8, optDump = 0;
static int optJobs = 8, optTier = 0;
static unsigned optRlimit = 60000000;
static int optLand = 0;
static double tStart;
static double now () { timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ---------------------------------------------------------------- shared stats
struct Shared
{
  std::atomic<long> paths, infeasible, aborted, forks, queries, qsat, qunsat, qunk, steps;
  std::atomic<long> asserts, assertsConcrete, assertsSolver, violations, inconclusive;
  std::atomic<long> solverNs, running, samples, dumps, outOfTime, feasQueries, branches, maxDepth, bigQ;
  std::atomic<long> nreach, rounded;
  std::atomic<long> violSeq;
};
static Shared *SH;
static uint8_t *blockBits;  // executed basic blocks
static size_t nBlocks = 0;
static bool haveSlot = true; // this process holds a running slot
static std::vector<pid_t> kids;

static void appendFile (const char *f, const std::string &s)
{
  std::string p = optOut + "/" + f;
  int fd = open (p.c_str (), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) return;
  if (write (fd, s.data (), s.size ()) < 0) {}
  close (fd);
}

// ---------------------------------------------------------------- arena
static const u64 HEAP0 = 0x100000000000ull, HEAPSZ = 8ull << 30;
static const u64 STK0 = HEAP0 + HEAPSZ, STKSZ = 1ull << 30;
static const u64 GLB0 = STK0 + STKSZ, GLBSZ = 256ull << 20;
static const u64 AEND = GLB0 + GLBSZ;
static const u64 STATE0 = 0x200000000000ull;
static u64 heapTop = HEAP0 + 64, stkTop = STK0 + 64, glbTop = GLB0 + 64;
enum { ST_VALID = 1, ST_FREED = 2, ST_SYM0 = 0x10, ST_SYMN = 0x20 };
static inline uint8_t &stateOf (u64 a) { return *(uint8_t *) (STATE0 + (a - HEAP0)); }
static inline bool inArena (u64 a) { return a >= HEAP0 && a < AEND; }
struct AllocInfo { u64 size; uint8_t kind; bool freed; };
static std::unordered_map<u64, AllocInfo> allocs;

static void arenaInit ()
{
  void *a = mmap ((void *) HEAP0, AEND - HEAP0, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  void *b = mmap ((void *) STATE0, AEND - HEAP0, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (a == MAP_FAILED || b == MAP_FAILED) { perror ("mmap"); exit (2); }
}
// native libstdc++ code may free memory the interpreted program allocated
void operator delete (void *p) noexcept { if (!p || inArena ((u64) p)) return; free (p); }
void operator delete (void *p, size_t) noexcept { if (!p || inArena ((u64) p)) return; free (p); }
void operator delete[] (void *p) noexcept { if (!p || inArena ((u64) p)) return; free (p); }
void operator delete[] (void *p, size_t) noexcept { if (!p || inArena ((u64) p)) return; free (p); }

// ---------------------------------------------------------------- values
enum Kind : uint8_t { K_BOOL = 1, K_INT, K_DI, K_DR };
struct Sym
{
  Kind k; unsigned w = 0; int g = 0;
  i128 lo = 0, hi = 0;      // INT, DI
  double dlo = 0, dhi = 0;  // DR
  Z3_ast e = nullptr;       // BOOL: Bool; INT/DI: Int; DR: Real
  Z3_ast b = nullptr;       // INT that is ite(b,1,0)
};
struct Val { u64 u; Sym *s; Val *agg; };
static inline Val CV (u64 u) { return Val{ u, nullptr, nullptr }; }
static inline Val DV (double d) { u64 u; memcpy (&u, &d, 8); return CV (u); }
static inline double asD (const Val &v) { double d; memcpy (&d, &v.u, 8); return d; }
static inline int64_t sx (u64 v, unsigned w) { if (w >= 64) return (int64_t) v; u64 m = 1ull << (w - 1); v &= (1ull << w) - 1; return (int64_t) ((v ^ m) - m); }
static inline u64 zx (u64 v, unsigned w) { if (w >= 64) return v; return v & ((1ull << w) - 1); }

// ---------------------------------------------------------------- path end
[[noreturn]] static void finishProcess ()
{
  // hand our slot back first so queued work can proceed, then reap children
  if (haveSlot) { SH->running--; haveSlot = false; }
  for (pid_t p : kids) { int st; waitpid (p, &st, 0); if (WIFSIGNALED (st)) { SH->aborted++; appendFile ("errors.txt", "child killed by signal " + std::to_string (WTERMSIG (st)) + "\n"); } }
  _exit (0);
}
static std::string where ();
[[noreturn]] static void abortPath (const std::string &why)
{
  SH->aborted++;
  appendFile ("errors.txt", why + " @ " + where () + "\n");
  finishProcess ();
}
static void onAlarm (int)
{
  SH->outOfTime++; SH->qunk++;
  appendFile ("errors.txt", "solver gave no answer in time, path dropped\n");
  finishProcess ();
}
static bool outOfTime ()
{
  if (now () - tStart > optTime || SH->paths > optMaxPaths) { SH->outOfTime++; return true; }
  return false;
}

// ---------------------------------------------------------------- z3
static Z3_context Z;
static Z3_solver S;
static Z3_sort IntS, RealS, BoolS;
static Z3_model curModel = nullptr; // satisfies the path condition, or null
static int pathDepth = 0;
static bool usedRound = false;

static std::string i128s (i128 v)
{
  bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128) v : (unsigned __int128) v;
  std::string s; do { s.insert (s.begin (), '0' + (int) (u % 10)); u /= 10; } while (u);
  return n ? "-" + s : s;
}
static Z3_ast zi (i128 v)
{
  if (v >= INT64_MIN && v <= INT64_MAX) return Z3_mk_int64 (Z, (int64_t) v, IntS);
  return Z3_mk_numeral (Z, i128s (v).c_str (), IntS);
}
static Z3_ast z2 (Z3_ast (*f) (Z3_context, unsigned, Z3_ast const *), Z3_ast a, Z3_ast b)
{ Z3_ast x[2] = { a, b }; return f (Z, 2, x); }
static Z3_ast zadd (Z3_ast a, Z3_ast b) { return z2 (Z3_mk_add, a, b); }
static Z3_ast zsub (Z3_ast a, Z3_ast b) { return z2 (Z3_mk_sub, a, b); }
static Z3_ast zmul (Z3_ast a, Z3_ast b) { return z2 (Z3_mk_mul, a, b); }
static Z3_ast zand (Z3_ast a, Z3_ast b) { return z2 (Z3_mk_and, a, b); }
static Z3_ast zor (Z3_ast a, Z3_ast b) { return z2 (Z3_mk_or, a, b); }
static Z3_ast znot (Z3_ast a) { return Z3_mk_not (Z, a); }
static Z3_ast zite (Z3_ast c, Z3_ast a, Z3_ast b) { return Z3_mk_ite (Z, c, a, b); }
static Z3_ast zmulc (Z3_ast a, i128 c) { return c == 1 ? a : zmul (zi (c), a); }
static Z3_ast fresh (const char *p, Z3_sort s) { return Z3_mk_fresh_const (Z, p, s); }
static int freshCnt = 0;

static Z3_ast zreal (double d) // exact
{
  int e; double m = frexp (d, &e); // d = m*2^e, m in [.5,1)
  long long M = (long long) ldexp (m, 53); e -= 53;
  while (M && !(M & 1)) { M >>= 1; e++; }
  if (M == 0) return Z3_mk_numeral (Z, "0", RealS);
  std::string num = std::to_string (M), den;
  if (e < 0 && -e <= 62) return Z3_mk_numeral (Z, (num + "/" + std::to_string (1ll << -e)).c_str (), RealS);
  Z3_ast r = Z3_mk_numeral (Z, num.c_str (), RealS);
  Z3_ast two62 = Z3_mk_numeral (Z, std::to_string (1ll << 62).c_str (), RealS);
  while (e > 0) { int k = e > 62 ? 62 : e; r = zmul (r, Z3_mk_numeral (Z, std::to_string (1ll << k).c_str (), RealS)); e -= k; }
  while (e < 0) { int k = -e > 62 ? 62 : -e; r = Z3_mk_div (Z, r, Z3_mk_numeral (Z, std::to_string (1ll << k).c_str (), RealS)); e += k; }
  (void) two62;
  return Z3_simplify (Z, r);
}

static void setModel (Z3_model m)
{
  if (m) Z3_model_inc_ref (Z, m);
  if (curModel) Z3_model_dec_ref (Z, curModel);
  curModel = m;
}
static std::vector<Z3_ast> pcs; // asserted path condition (for dumping)
static void pc (Z3_ast a) { Z3_solver_assert (Z, S, a); pcs.push_back (a); }

// returns 1 sat (model in *mo), 0 unsat, -1 unknown
static int query (Z3_ast extra, Z3_model *mo)
{
  double t0 = now ();
  Z3_solver_push (Z, S);
  if (extra) Z3_solver_assert (Z, S, extra);
  // z3's resource limit does not stop every non-linear procedure: give up on the path
  double left = optTime + 30 - (t0 - tStart); if (left > 90) left = 90; if (left < 10) left = 10;
  alarm ((unsigned) left);
  Z3_lbool r = Z3_solver_check (Z, S);
  alarm (0);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1 && mo) { *mo = Z3_solver_get_model (Z, S); Z3_model_inc_ref (Z, *mo); }
  Z3_solver_pop (Z, S, 1);
  double dt = now () - t0;
  SH->solverNs += (long) (dt * 1e9);
  SH->queries++;
  if (dt > 5) SH->bigQ++;
  if (res == 1) SH->qsat++; else if (res == 0) SH->qunsat++; else SH->qunk++;
  return res;
}
static int evalBool (Z3_ast a) // under curModel: 1/0/-1
{
  if (!curModel) return -1;
  Z3_ast o;
  if (!Z3_model_eval (Z, curModel, a, true, &o)) return -1;
  Z3_lbool b = Z3_get_bool_value (Z, o);
  return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}
static void needModel ()
{
  if (curModel) return;
  Z3_model m = nullptr;
  int r = query (nullptr, &m);
  if (r == 0) { SH->infeasible++; finishProcess (); }
  if (r < 0) abortPath ("solver unknown on path condition");
  setModel (m); Z3_model_dec_ref (Z, m);
}

// fork; true in the child.  The parent continues at once when a slot is free,
// otherwise it waits for the child (depth first).
static bool doFork ()
{
  if (outOfTime ()) { finishProcess (); }
  SH->forks++;
  bool own = false;
  long r = SH->running.load ();
  while (r < optJobs) if (SH->running.compare_exchange_weak (r, r + 1)) { own = true; break; }
  pid_t p = fork ();
  if (p < 0) { if (own) SH->running--; abortPath ("fork failed"); }
  pathDepth++;
  if (SH->maxDepth < pathDepth) SH->maxDepth = pathDepth;
  if (p == 0)
    {
      kids.clear ();
      haveSlot = own; // without an own slot we run on the waiting parent's
      return true;
    }
  if (own) kids.push_back (p);
  else
    {
      int st; waitpid (p, &st, 0);
      if (WIFSIGNALED (st)) { SH->aborted++; appendFile ("errors.txt", "child killed by signal " + std::to_string (WTERMSIG (st)) + "\n"); }
    }
  // reap finished kids now and then
  if (kids.size () > 64)
    { std::vector<pid_t> k2; for (pid_t k : kids) { int st; if (waitpid (k, &st, WNOHANG) == 0) k2.push_back (k); } kids.swap (k2); }
  return false;
}

// decide a symbolic condition, forking when both sides are feasible
static bool branchOn (Z3_ast c)
{
  SH->branches++;
  needModel ();
  int ev = evalBool (c);
  if (ev < 0)
    {
      Z3_model m = nullptr; int r = query (c, &m);
      if (r == 0) { return false; }
      if (r < 0) abortPath ("solver unknown on branch");
      setModel (m); Z3_model_dec_ref (Z, m); ev = 1;
    }
  Z3_ast nc = znot (c);
  Z3_model mo = nullptr;
  int r = query (ev ? nc : c, &mo);
  if (r == 0) return ev; // other side infeasible
  // both sides feasible (unknown counts as feasible)
  if (doFork ())
    { // child takes the side of the current model
      if (mo) Z3_model_dec_ref (Z, mo);
      pc (ev ? c : nc);
      return ev;
    }
  if (r < 0) setModel (nullptr);
  else { setModel (mo); Z3_model_dec_ref (Z, mo); }
  pc (ev ? nc : c);
  return !ev;
}

// ---------------------------------------------------------------- inputs / reports
struct Input { std::string name; bool sym; double cv; Z3_ast e; int g; };
static std::vector<Input> inputs;
struct Obs { std::string name; bool dbl; Val v; unsigned w; };
static std::vector<Obs> obsv;
static bool evalNum (Z3_model m, Z3_ast e, double &d)
{
  Z3_ast o;
  if (!Z3_model_eval (Z, m, e, true, &o)) return false;
  if (Z3_get_ast_kind (Z, o) != Z3_NUMERAL_AST)
    {
      o = Z3_simplify (Z, o);
      if (Z3_get_ast_kind (Z, o) != Z3_NUMERAL_AST) return false;
    }
  int64_t iv, dn;
  if (Z3_get_numeral_rational_int64 (Z, o, &iv, &dn)) { d = (double) iv / (double) dn; return true; }
  d = Z3_get_numeral_double (Z, o);
  return true;
}
static std::string inputLines (Z3_model m)
{
  std::string r; char b[256];
  for (auto &i : inputs)
    {
      double d = i.cv;
      if (i.sym) { if (!m || !evalNum (m, i.e, d)) d = 0; d = ldexp (d, -i.g); }
      snprintf (b, sizeof b, "IN %s %.17g\n", i.name.c_str (), d);
      r += b;
    }
  return r;
}
static void reportViolation (const std::string &id, Z3_model m, const std::string &detail)
{
  long n = SH->violSeq++;
  SH->violations++;
  if (n >= 400) return;
  char f[64]; snprintf (f, sizeof f, "viol_%04ld.txt", n);
  appendFile (f, "VIOL " + id + "\nDETAIL " + detail + "\nROUNDED " + (usedRound ? "1" : "0") + "\n" + inputLines (m));
}
[[noreturn]] static void fatalViolation (const std::string &id, const std::string &detail)
{
  needModel ();
  reportViolation (id, curModel, detail + " @ " + where ());
  SH->paths++;
  finishProcess ();
}
static double symD (const Val &v, Z3_model m);
[[noreturn]] static void pathDone ()
{
  long n = SH->paths++;
  (void) n;
  if (outOfTime ()) finishProcess ();
  if (SH->samples.load () < optSamples)
    {
      long k = SH->samples++;
      if (k < optSamples)
        {
          needModel ();
          std::string r = "ROUNDED " + std::string (usedRound ? "1" : "0") + "\n" + inputLines (curModel);
          char b[256];
          for (auto &o : obsv)
            {
              double d;
              if (o.v.s) d = symD (o.v, curModel);
              else d = o.dbl ? asD (o.v) : (double) sx (o.v.u, o.w);
              snprintf (b, sizeof b, "OBS %s %.17g\n", o.name.c_str (), d);
              r += b;
            }
          char f[64]; snprintf (f, sizeof f, "sample_%04ld.txt", k);
          appendFile (f, r);
        }
    }
  finishProcess ();
}

// ---------------------------------------------------------------- symbolic constructors
static Val mkBool (Z3_ast e)
{
  Z3_lbool v = Z3_get_bool_value (Z, e);
  if (v == Z3_L_TRUE) return CV (1);
  if (v == Z3_L_FALSE) return CV (0);
  Sym *s = new Sym; s->k = K_BOOL; s->w = 1; s->e = e; return Val{ 0, s, nullptr };
}
static i128 imin (unsigned w) { return -((i128) 1 << (w - 1)); }
static i128 imax (unsigned w) { return ((i128) 1 << (w - 1)) - 1; }
// value e in [lo,hi] reduced to a w-bit two's complement value (signed canonical)
static Val mkInt (Z3_ast e, i128 lo, i128 hi, unsigned w)
{
  i128 P = (i128) 1 << w;
  if (lo < imin (w) || hi > imax (w))
    {
      // whole-period shift?
      auto fl = [&] (i128 x) { i128 y = x - imin (w); i128 q = y / P; if (y % P < 0) q--; return q; };
      i128 q1 = fl (lo), q2 = fl (hi);
      if (q1 == q2) { if (q1 != 0) { e = zsub (e, zi (q1 * P)); lo -= q1 * P; hi -= q1 * P; } }
      else
        {
          e = zsub (Z3_mk_mod (Z, zadd (e, zi (-imin (w))), zi (P)), zi (-imin (w)));
          lo = imin (w); hi = imax (w);
        }
    }
  if (lo == hi) return CV (zx ((u64) (int64_t) lo, w));
  Sym *s = new Sym; s->k = K_INT; s->w = w; s->e = e; s->lo = lo; s->hi = hi;
  return Val{ 0, s, nullptr };
}
static Val boolToInt (const Val &b, unsigned w, int one)
{
  Val r = mkInt (zite (b.s->e, zi (one), zi (0)), one < 0 ? one : 0, one < 0 ? 0 : one, w);
  if (r.s && one == 1) r.s->b = b.s->e;
  return r;
}
static u64 concretize (Val v, unsigned w);
struct IV { Z3_ast e; i128 lo, hi; };
static IV ivS (const Val &v, unsigned w) // signed canonical
{
  if (!v.s) { i128 c = sx (v.u, w); return IV{ zi (c), c, c }; }
  if (v.s->k == K_BOOL) return IV{ zite (v.s->e, zi (-1), zi (0)), -1, 0 };
  if (v.s->k != K_INT) { u64 u = concretize (v, 64); i128 c = sx (u, w); return IV{ zi (c), c, c }; }
  return IV{ v.s->e, v.s->lo, v.s->hi };
}
static IV ivU (const Val &v, unsigned w)
{
  if (!v.s) { i128 c = (i128) zx (v.u, w); return IV{ zi (c), c, c }; }
  if (v.s->k == K_BOOL) return IV{ zite (v.s->e, zi (1), zi (0)), 0, 1 };
  IV a = ivS (v, w);
  if (a.lo >= 0) return a;
  i128 P = (i128) 1 << w;
  if (a.hi < 0) return IV{ zadd (a.e, zi (P)), a.lo + P, a.hi + P };
  return IV{ zite (Z3_mk_lt (Z, a.e, zi (0)), zadd (a.e, zi (P)), a.e), 0, P - 1 };
}
static Z3_ast boolOf (const Val &v) // i1 value
{
  if (!v.s) return (v.u & 1) ? Z3_mk_true (Z) : Z3_mk_false (Z);
  if (v.s->k == K_BOOL) return v.s->e;
  if (v.s->b) return v.s->b;
  return Z3_mk_eq (Z, Z3_mk_mod (Z, v.s->e, zi (2)), zi (1));
}
static u64 concretizeAst (Z3_ast e, int64_t)
{
  // split on every feasible integer value of e
  for (int n = 0;; n++)
    {
      if (n > 4000) abortPath ("concretisation too wide");
      needModel ();
      Z3_ast o;
      if (!Z3_model_eval (Z, curModel, e, true, &o) || Z3_get_ast_kind (Z, o) != Z3_NUMERAL_AST) abortPath ("no model value");
      int64_t v;
      if (!Z3_get_numeral_int64 (Z, o, &v)) abortPath ("model value out of range");
      Z3_ast eq = Z3_mk_eq (Z, e, zi (v));
      Z3_model mo = nullptr;
      int r = query (znot (eq), &mo);
      if (r == 0) { pc (eq); return (u64) v; }
      SH->branches++;
      if (doFork ()) { if (mo) Z3_model_dec_ref (Z, mo); pc (eq); return (u64) v; }
      if (r < 0) setModel (nullptr); else { setModel (mo); Z3_model_dec_ref (Z, mo); }
      pc (znot (eq));
    }
}
static u64 concretize (Val v, unsigned w)
{
  if (!v.s) return v.u;
  switch (v.s->k)
    {
    case K_BOOL: return branchOn (v.s->e) ? 1 : 0;
    case K_INT:
      if (v.s->b) return branchOn (v.s->b) ? 1 : 0;
      return zx (concretizeAst (v.s->e, 0), w);
    case K_DI: { int64_t n = (int64_t) concretizeAst (v.s->e, 0); return DV (ldexp ((double) n, -v.s->g)).u; }
    default: abortPath ("cannot concretise an inexact real");
    }
}
// ---- doubles
static const i128 M53 = (i128) 1 << 53;
static bool dyadic (double c, i128 &N, int &g)
{
  if (!std::isfinite (c)) return false;
  if (c == 0) { N = 0; g = 0; return true; }
  int e; double m = frexp (c, &e); long long M = (long long) ldexp (m, 53); e -= 53;
  while (!(M & 1)) { M >>= 1; e++; }
  if (e >= 0) { if (e > 40) return false; N = (i128) M << e; g = 0; if (N > M53 || N < -M53) return false; return true; }
  if (-e > 60) return false;
  N = M; g = -e; return true;
}
static Val mkDI (Z3_ast e, i128 lo, i128 hi, int g)
{
  if (lo == hi) return DV (ldexp ((double) (int64_t) lo, -g));
  Sym *s = new Sym; s->k = K_DI; s->e = e; s->lo = lo; s->hi = hi; s->g = g; s->w = 64;
  return Val{ 0, s, nullptr };
}
struct DI { Z3_ast e; i128 lo, hi; int g; };
static bool getDI (const Val &v, DI &d)
{
  if (v.s) { if (v.s->k != K_DI) return false; d = DI{ v.s->e, v.s->lo, v.s->hi, v.s->g }; return true; }
  i128 N; int g; if (!dyadic (asD (v), N, g)) return false;
  d = DI{ zi (N), N, N, g }; return true;
}
static bool rescale (DI &d, int g)
{
  int k = g - d.g; if (k == 0) return true;
  if (k > 60) return false;
  i128 f = (i128) 1 << k;
  d.lo *= f; d.hi *= f; d.g = g; d.e = zmulc (d.e, f);
  return true;
}
struct DR { Z3_ast e; double lo, hi; };
static double up (double x) { return x + std::fabs (x) * 1e-15; }
static double dn (double x) { return x - std::fabs (x) * 1e-15; }
static DR getDR (const Val &v)
{
  if (!v.s) { double c = asD (v); return DR{ zreal (c), c, c }; }
  if (v.s->k == K_DR) return DR{ v.s->e, v.s->dlo, v.s->dhi };
  if (v.s->k == K_DI)
    {
      Z3_ast r = Z3_mk_int2real (Z, v.s->e);
      if (v.s->g) r = zmul (zreal (ldexp (1, -v.s->g)), r);
      return DR{ r, ldexp ((double) v.s->lo, -v.s->g), ldexp ((double) v.s->hi, -v.s->g) };
    }
  abortPath ("integer symbol used as double");
}
static double symD (const Val &v, Z3_model m)
{
  double d = 0;
  if (v.s->k == K_BOOL) { Z3_ast o; Z3_model_eval (Z, m, v.s->e, true, &o); return Z3_get_bool_value (Z, o) == Z3_L_TRUE; }
  evalNum (m, v.s->e, d);
  if (v.s->k == K_DI) d = ldexp (d, -v.s->g);
  return d;
}
static std::map<std::string, Val> opCache;
static Val mkDR (Z3_ast e, double lo, double hi)
{
  Sym *s = new Sym; s->k = K_DR; s->e = e; s->dlo = lo; s->dhi = hi; s->w = 64;
  return Val{ 0, s, nullptr };
}
// round-to-nearest of the exact real `e`
static Val rounded (const char *op, Z3_ast e, double lo, double hi)
{
  std::string key = std::string (op) + ":" + std::to_string (Z3_get_ast_id (Z, e));
  auto it = opCache.find (key);
  if (it != opCache.end ()) return it->second;
  if (!std::isfinite (lo) || !std::isfinite (hi)) abortPath ("unbounded real");
  usedRound = true; SH->rounded++;
  double M = std::max (std::fabs (lo), std::fabs (hi));
  double eps = ldexp (M, -53);
  if (eps < 1e-300) eps = 1e-300;
  Z3_ast r = fresh ("fl", RealS);
  Z3_ast ze = zreal (eps);
  Z3_ast z0 = Z3_mk_numeral (Z, "0", RealS);
  if (lo >= 0 && lo < M * 0.5)
    {
      // known sign: relative error (plus the smallest absolute one)
      Z3_ast t = zreal (1e-300), u = zreal (ldexp (1, -53));
      Z3_ast rel = zadd (zmul (e, u), t);
      pc (Z3_mk_le (Z, zsub (e, rel), r));
      pc (Z3_mk_le (Z, r, zadd (e, rel)));
    }
  else
    {
      pc (Z3_mk_le (Z, zsub (e, ze), r));
      pc (Z3_mk_le (Z, r, zadd (e, ze)));
    }
  // rounding is monotone and keeps representable values, here small multiples of 1/2
  for (int k = 1; k <= 2 * optLand; k++)
    if (lo < k * 0.5 && hi > k * 0.5)
      {
        Z3_ast zc = zreal (k * 0.5);
        pc (Z3_mk_implies (Z, Z3_mk_le (Z, e, zc), Z3_mk_le (Z, r, zc)));
        pc (Z3_mk_implies (Z, Z3_mk_ge (Z, e, zc), Z3_mk_ge (Z, r, zc)));
      }
  if (lo >= 0) pc (Z3_mk_ge (Z, r, z0));
  if (hi <= 0) pc (Z3_mk_le (Z, r, z0));
  if (lo <= 0 && hi >= 0) pc (Z3_mk_implies (Z, Z3_mk_eq (Z, e, z0), Z3_mk_eq (Z, r, z0)));
  setModel (nullptr);
  Z3_inc_ref (Z, e);
  Val v = mkDR (r, dn (lo), up (hi));
  opCache[key] = v;
  return v;
}
static double concD (const Val &v) { if (!v.s) return asD (v); Val c = CV (concretize (v, 64)); return asD (c); }
static i128 countOf (const Val &v) { if (!v.s) return 1; if (v.s->k == K_DI || v.s->k == K_INT) return v.s->hi - v.s->lo + 1; return (i128) 1 << 100; }
static double dlo (const Val &v) { return getDR (v).lo; }
static double dhi (const Val &v) { return getDR (v).hi; }
static double dabs (const Val &v) { return std::max (std::fabs (dlo (v)), std::fabs (dhi (v))); }
enum FOp { F_ADD, F_SUB, F_MUL, F_DIV };
static Z3_ast fcmpAst (unsigned p, const Val &a, const Val &b, int &conc);
static Val fbin (FOp op, Val a, Val b)
{
  if (!a.s && !b.s)
    {
      double x = asD (a), y = asD (b);
      switch (op) { case F_ADD: return DV (x + y); case F_SUB: return DV (x - y); case F_MUL: return DV (x * y); default: return DV (x / y); }
    }
  // one side concrete and not finite / absorbing
  for (int i = 0; i < 2; i++)
    {
      Val &c = i ? b : a; Val &o = i ? a : b;
      if (c.s) continue;
      double x = asD (c);
      if (!std::isfinite (x))
        {
          if (std::isnan (x)) return c;
          if (op == F_ADD) return c;
          if (op == F_SUB) return i ? DV (-x) : c;
          // products and quotients with an infinity depend on the sign
          int cc; Z3_ast pos = fcmpAst (CmpInst::FCMP_OGT, o, DV (0), cc);
          bool isPos = cc >= 0 ? cc : branchOn (pos);
          if (op == F_DIV && i) return DV (isPos ? 0.0 : -0.0);
          if (isPos) return c;
          Z3_ast neg = fcmpAst (CmpInst::FCMP_OLT, o, DV (0), cc);
          bool isNeg = cc >= 0 ? cc : branchOn (neg);
          if (isNeg) return DV (-x);
          return op == F_DIV ? c : DV (NAN);
        }
      if ((op == F_ADD || op == F_SUB) && std::fabs (x) > 3.7e16 * dabs (o))
        return op == F_SUB && i ? DV (-x) : c; // absorbed exactly by round-to-nearest
      if (op == F_MUL && x == 0) return DV (0);
      if (op == F_DIV && !i && x == 0)
        {
          int cc; Z3_ast z = fcmpAst (CmpInst::FCMP_OEQ, o, DV (0), cc);
          if (cc >= 0 ? cc : branchOn (z)) return DV (NAN);
          return DV (0);
        }
      if (op == F_MUL && x == 1) return o;
      if ((op == F_ADD || (op == F_SUB && i)) && x == 0) return o;
      if (op == F_DIV && i && x == 1) return o;
    }
  if (op == F_DIV)
    {
      if (b.s)
        {
          int cc; Z3_ast z = fcmpAst (CmpInst::FCMP_OEQ, b, DV (0), cc);
          bool zero = cc >= 0 ? cc : branchOn (z);
          if (zero)
            {
              if (!a.s) return DV (asD (a) / 0.0);
              Z3_ast p = fcmpAst (CmpInst::FCMP_OGT, a, DV (0), cc);
              if (cc >= 0 ? cc : branchOn (p)) return DV (INFINITY);
              p = fcmpAst (CmpInst::FCMP_OLT, a, DV (0), cc);
              if (cc >= 0 ? cc : branchOn (p)) return DV (-INFINITY);
              return DV (NAN);
            }
          if (countOf (b) <= 64) return fbin (F_DIV, a, DV (concD (b)));
          if (a.s && countOf (a) <= 64) return fbin (F_DIV, DV (concD (a)), b);
        }
      else
        {
          double y = asD (b);
          if (y == 0)
            {
              int cc; Z3_ast p = fcmpAst (CmpInst::FCMP_OGT, a, DV (0), cc);
              if (cc >= 0 ? cc : branchOn (p)) return DV (1 / y);
              p = fcmpAst (CmpInst::FCMP_OLT, a, DV (0), cc);
              if (cc >= 0 ? cc : branchOn (p)) return DV (-1 / y);
              return DV (NAN);
            }
          int e; double m = frexp (y, &e);
          if (std::fabs (m) == 0.5 && e > -50 && e < 50) return fbin (F_MUL, a, DV (1 / y));
        }
    }
  if (op == F_MUL && a.s && b.s && a.s->e == b.s->e && false) {}
  if (op == F_MUL && a.s && b.s)
    {
      if (countOf (a) <= 64 && countOf (a) <= countOf (b)) return fbin (F_MUL, DV (concD (a)), b);
      if (countOf (b) <= 64) return fbin (F_MUL, a, DV (concD (b)));
    }
  DI x, y;
  if (op != F_DIV && getDI (a, x) && getDI (b, y))
    {
      if (op == F_MUL)
        {
          i128 c[4] = { x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi };
          bool small = true;
          for (i128 v : { x.lo, x.hi, y.lo, y.hi }) if (v > M53 || v < -M53) small = false;
          i128 lo = c[0], hi = c[0];
          for (i128 v : c) { if (v < lo) lo = v; if (v > hi) hi = v; }
          int g = x.g + y.g;
          if (small && lo >= -M53 && hi <= M53 && g <= 200)
            {
              Z3_ast e = !a.s ? zmulc (y.e, x.lo) : !b.s ? zmulc (x.e, y.lo) : zmul (x.e, y.e);
              // strip common powers of two of a constant factor
              return mkDI (e, lo, hi, g);
            }
        }
      else
        {
          int g = std::max (x.g, y.g);
          if (rescale (x, g) && rescale (y, g))
            {
              i128 lo = op == F_ADD ? x.lo + y.lo : x.lo - y.hi, hi = op == F_ADD ? x.hi + y.hi : x.hi - y.lo;
              if (lo >= -M53 && hi <= M53)
                return mkDI (op == F_ADD ? zadd (x.e, y.e) : zsub (x.e, y.e), lo, hi, g);
            }
        }
    }
  DR p = getDR (a), q = getDR (b);
  switch (op)
    {
    case F_ADD: return rounded ("+", zadd (p.e, q.e), dn (p.lo + q.lo), up (p.hi + q.hi));
    case F_SUB: return rounded ("-", zsub (p.e, q.e), dn (p.lo - q.hi), up (p.hi - q.lo));
    case F_MUL:
      {
        for (int i = 0; i < 2; i++)
          if (!(i ? a : b).s)
            {
              // scaling by a power of two is exact
              double y = asD (i ? a : b); int ex; double m = std::fabs (frexp (y, &ex));
              DR &o = i ? q : p;
              if (m == 0.5 && ex > -50 && ex < 50 && std::fabs (o.lo) < 1e200 && std::fabs (o.hi) < 1e200)
                return mkDR (zmul (p.e, q.e), std::min (o.lo * y, o.hi * y), std::max (o.lo * y, o.hi * y));
            }
        double c[4] = { p.lo * q.lo, p.lo * q.hi, p.hi * q.lo, p.hi * q.hi };
        double lo = c[0], hi = c[0]; for (double v : c) { lo = std::min (lo, v); hi = std::max (hi, v); }
        return rounded ("*", zmul (p.e, q.e), dn (lo), up (hi));
      }
    default:
      {
        if (!b.s)
          {
            double y0 = asD (b); double l = p.lo / y0, h = p.hi / y0; if (l > h) std::swap (l, h);
            return rounded ("/", Z3_mk_div (Z, p.e, q.e), dn (l), up (h));
          }
        // the denominator is nonzero here; bound it away from zero
        double m = 0; DI d;
        if (getDI (b, d)) m = ldexp (1, -d.g);
        else
          {
            m = 1e-6;
            Z3_ast small = zand (Z3_mk_lt (Z, q.e, zreal (m)), Z3_mk_gt (Z, q.e, zreal (-m)));
            if (query (small, nullptr) != 0) abortPath ("denominator not bounded away from zero");
          }
        bool pos = q.lo >= 0 || query (Z3_mk_le (Z, q.e, zreal (0)), nullptr) == 0;
        double dmin = pos ? std::max (q.lo, m) : m;
        double M = std::max (std::fabs (p.lo), std::fabs (p.hi)) / dmin;
        double l = -M, h = M;
        if (pos) { l = p.lo >= 0 ? 0 : p.lo / dmin; h = p.hi <= 0 ? 0 : p.hi / dmin; }
        // r * b = a keeps the query polynomial
        std::string key = "q:" + std::to_string (Z3_get_ast_id (Z, p.e)) + "/" + std::to_string (Z3_get_ast_id (Z, q.e));
        Z3_inc_ref (Z, p.e); Z3_inc_ref (Z, q.e);
        return rounded ("/", Z3_mk_div (Z, p.e, q.e), dn (l), up (h));
      }
    }
}
static int cmpIv (unsigned p, double alo, double ahi, double blo, double bhi)
{
  switch (p & 7)
    {
    case 2: if (alo > bhi) return 1; if (ahi <= blo) return 0; return -1; // GT
    case 3: if (alo >= bhi) return 1; if (ahi < blo) return 0; return -1; // GE
    case 4: if (ahi < blo) return 1; if (alo >= bhi) return 0; return -1; // LT
    case 5: if (ahi <= blo) return 1; if (alo > bhi) return 0; return -1; // LE
    case 1: if (alo > bhi || ahi < blo) return 0; return -1;
    case 6: if (alo > bhi || ahi < blo) return 1; return -1;
    }
  return -1;
}
static Z3_ast cmpAst (unsigned p, Z3_ast a, Z3_ast b)
{
  switch (p & 7)
    {
    case 1: return Z3_mk_eq (Z, a, b);
    case 2: return Z3_mk_gt (Z, a, b);
    case 3: return Z3_mk_ge (Z, a, b);
    case 4: return Z3_mk_lt (Z, a, b);
    case 5: return Z3_mk_le (Z, a, b);
    default: return znot (Z3_mk_eq (Z, a, b));
    }
}
static Z3_ast fcmpAst (unsigned p, const Val &a, const Val &b, int &conc)
{
  conc = -1;
  // FCMP predicates: bit0 EQ bit1 GT bit2 LT bit3 UNO
  unsigned k = p & 7;
  if ((!a.s && std::isnan (asD (a))) || (!b.s && std::isnan (asD (b)))) { conc = (p & 8) ? 1 : 0; return nullptr; }
  if (k == 7) { conc = 1; return nullptr; }
  if (k == 0) { conc = 0; return nullptr; }
  if (!a.s && !b.s)
    {
      double x = asD (a), y = asD (b);
      if (std::isnan (x) || std::isnan (y)) { conc = (p & 8) ? 1 : 0; return nullptr; }
      conc = ((k & 1) && x == y) || ((k & 2) && x > y) || ((k & 4) && x < y);
      return nullptr;
    }
  if (!a.s || !b.s)
    {
      double c = asD (a.s ? b : a);
      if (std::isnan (c)) { conc = (p & 8) ? 1 : 0; return nullptr; }
      if (std::isinf (c))
        {
          double x = a.s ? 0 : c, y = b.s ? 0 : c;
          conc = ((k & 1) && x == y) || ((k & 2) && x > y) || ((k & 4) && x < y);
          return nullptr;
        }
    }
  // map to comparison code
  unsigned code = k == 1 ? 1 : k == 2 ? 2 : k == 3 ? 3 : k == 4 ? 4 : k == 5 ? 5 : 6;
  if ((!a.s && std::fabs (asD (a)) > 1e30) || (!b.s && std::fabs (asD (b)) > 1e30))
    { conc = cmpIv (code, dlo (a), dhi (a), dlo (b), dhi (b)); if (conc >= 0) return nullptr; }
  DI x, y;
  if (getDI (a, x) && getDI (b, y))
    {
      int g = std::max (x.g, y.g);
      i128 big = (i128) 1 << 100;
      if (g - x.g <= 40 && g - y.g <= 40 && rescale (x, g) && rescale (y, g) && x.hi < big && y.hi < big)
        {
          // integer intervals are exact
          switch (code)
            {
            case 2: if (x.lo > y.hi) conc = 1; else if (x.hi <= y.lo) conc = 0; break;
            case 3: if (x.lo >= y.hi) conc = 1; else if (x.hi < y.lo) conc = 0; break;
            case 4: if (x.hi < y.lo) conc = 1; else if (x.lo >= y.hi) conc = 0; break;
            case 5: if (x.hi <= y.lo) conc = 1; else if (x.lo > y.hi) conc = 0; break;
            case 1: if (x.lo > y.hi || x.hi < y.lo) conc = 0; break;
            default: if (x.lo > y.hi || x.hi < y.lo) conc = 1; break;
            }
          if (conc >= 0) return nullptr;
          return cmpAst (code, x.e, y.e);
        }
    }
  DR p1 = getDR (a), q1 = getDR (b);
  conc = cmpIv (code, p1.lo, p1.hi, q1.lo, q1.hi);
  if (conc >= 0) return nullptr;
  return cmpAst (code, p1.e, q1.e);
}
static Val fcmpV (unsigned p, const Val &a, const Val &b)
{
  int c; Z3_ast e = fcmpAst (p, a, b, c);
  if (c >= 0) return CV (c);
  return mkBool (e);
}
static Val fneg (const Val &a)
{
  if (!a.s) return DV (-asD (a));
  if (a.s->k == K_DI) return mkDI (Z3_mk_unary_minus (Z, a.s->e), -a.s->hi, -a.s->lo, a.s->g);
  DR d = getDR (a); return mkDR (Z3_mk_unary_minus (Z, d.e), -d.hi, -d.lo);
}
static i128 fdiv128 (i128 a, i128 b) { i128 q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q--; return q; }
static Val ffloor (const Val &a)
{
  if (!a.s) return DV (std::floor (asD (a)));
  if (a.s->k == K_DI)
    {
      if (a.s->g == 0) return a;
      if (a.s->g > 100) abortPath ("grid too fine");
      i128 D = (i128) 1 << a.s->g;
      return mkDI (Z3_mk_div (Z, a.s->e, zi (D)), fdiv128 (a.s->lo, D), fdiv128 (a.s->hi, D), 0);
    }
  DR d = getDR (a);
  return mkDI (Z3_mk_real2int (Z, d.e), (i128) std::floor (d.lo), (i128) std::floor (d.hi), 0);
}
static Val fceil (const Val &a) { return a.s ? fneg (ffloor (fneg (a))) : DV (std::ceil (asD (a))); }
static Val selectV (Z3_ast c, const Val &a, const Val &b, unsigned w, bool isF);
static Val ftrunc (const Val &a)
{
  if (!a.s) return DV (std::trunc (asD (a)));
  if (dlo (a) >= 0) return ffloor (a);
  if (dhi (a) <= 0) return fceil (a);
  int cc; Z3_ast c = fcmpAst (CmpInst::FCMP_OGE, a, DV (0), cc);
  if (cc >= 0) return cc ? ffloor (a) : fceil (a);
  return selectV (c, ffloor (a), fceil (a), 64, true);
}
static Val fround (const Val &a)
{
  if (!a.s) return DV (std::round (asD (a)));
  Val p = ffloor (fbin (F_ADD, a, DV (0.5)));
  if (dlo (a) >= 0) return p;
  Val n = fneg (ffloor (fbin (F_ADD, fneg (a), DV (0.5))));
  int cc; Z3_ast c = fcmpAst (CmpInst::FCMP_OGE, a, DV (0), cc);
  if (cc >= 0) return cc ? p : n;
  return selectV (c, p, n, 64, true);
}
static Val ffabs (const Val &a)
{
  if (!a.s) return DV (std::fabs (asD (a)));
  if (dlo (a) >= 0) return a;
  if (dhi (a) <= 0) return fneg (a);
  int cc; Z3_ast c = fcmpAst (CmpInst::FCMP_OGE, a, DV (0), cc);
  if (cc >= 0) return cc ? a : fneg (a);
  Val r = selectV (c, a, fneg (a), 64, true);
  if (r.s && r.s->k == K_DI && r.s->lo < 0) r.s->lo = 0;
  if (r.s && r.s->k == K_DR && r.s->dlo < 0) r.s->dlo = 0;
  return r;
}
static Val fptoint (const Val &a, unsigned w)
{
  if (!a.s)
    {
      double d = asD (a);
      if (!(d > -9.3e18 && d < 1.9e19)) return CV (zx (1ull << 63, w));
      if (d >= 9.2e18) return CV (zx ((u64) d, w));
      return CV (zx ((u64) (int64_t) d, w));
    }
  Val t = ftrunc (a);
  if (!t.s) return CV (zx ((u64) (int64_t) asD (t), w));
  if (t.s->k != K_DI || t.s->g != 0) { // align
    if (t.s->k == K_DI) { i128 D = (i128) 1 << t.s->g; return mkInt (Z3_mk_div (Z, t.s->e, zi (D)), fdiv128 (t.s->lo, D), fdiv128 (t.s->hi, D), w); }
    DR d = getDR (t); return mkInt (Z3_mk_real2int (Z, d.e), (i128) std::floor (d.lo), (i128) std::ceil (d.hi), w);
  }
  return mkInt (t.s->e, t.s->lo, t.s->hi, w);
}
static Val selectV (Z3_ast c, const Val &a, const Val &b, unsigned w, bool isF)
{
  if (!a.s && !b.s && a.u == b.u && !a.agg && !b.agg) return a;
  if (isF)
    {
      DI x, y;
      if (getDI (a, x) && getDI (b, y) && std::abs (x.g - y.g) <= 40)
        {
          int g = std::max (x.g, y.g); rescale (x, g); rescale (y, g);
          i128 lo = std::min (x.lo, y.lo), hi = std::max (x.hi, y.hi);
          if (lo >= -M53 * 4 && hi <= M53 * 4) return mkDI (zite (c, x.e, y.e), lo, hi, g);
        }
      if ((!a.s && !std::isfinite (asD (a))) || (!b.s && !std::isfinite (asD (b)))
          || (!a.s && std::fabs (asD (a)) > 1e30) || (!b.s && std::fabs (asD (b)) > 1e30))
        return branchOn (c) ? a : b;
      DR p = getDR (a), q = getDR (b);
      return mkDR (zite (c, p.e, q.e), std::min (p.lo, q.lo), std::max (p.hi, q.hi));
    }
  if ((a.s && a.s->k >= K_DI) || (b.s && b.s->k >= K_DI)) return branchOn (c) ? a : b;
  if (w == 1)
    {
      if (!a.s) return a.u & 1 ? mkBool (zor (c, boolOf (b))) : mkBool (zand (znot (c), boolOf (b)));
      if (!b.s) return b.u & 1 ? mkBool (zor (znot (c), boolOf (a))) : mkBool (zand (c, boolOf (a)));
      return mkBool (zite (c, boolOf (a), boolOf (b)));
    }
  IV p = ivS (a, w), q = ivS (b, w);
  Val r = mkInt (zite (c, p.e, q.e), std::min (p.lo, q.lo), std::max (p.hi, q.hi), w);
  if (r.s && r.s->lo == 0 && r.s->hi == 1 && !a.s && !b.s) r.s->b = a.u ? c : znot (c);
  return r;
}
#include "vpinterp.inc"
