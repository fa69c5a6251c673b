// ---------------------------------------------------------------- memory
struct SymEnt { Sym *s; unsigned n; };
static std::unordered_map<u64, SymEnt> shadow;
static inline void ck (u64 a, u64 n, const char *what)
{
  if (!inArena (a))
    {
      if (a < 0x10000 || a > 0x7fffffffffffull) fatalViolation ("memory", std::string ("invalid pointer ") + what);
      return;
    }
  const uint8_t *p = &stateOf (a);
  for (u64 i = 0; i < n; i++)
    if (!(p[i] & ST_VALID))
      fatalViolation ("memory", std::string (p[i] & ST_FREED ? "use after free, " : "out of bounds ") + what);
}
static void markAlloc (u64 a, u64 n) { memset (&stateOf (a), ST_VALID, n); }
static void dropSyms (u64 a, u64 n);
static u64 heapAlloc (u64 n, uint8_t kind)
{
  u64 a = heapTop;
  // a very large reservation (get_complete_dar_matrix reserves 16 GB) is backed by its first 16 MB
  if (n > (1ull << 31) && n <= (1ull << 35)) n = 1ull << 24;
  u64 need = ((n + 15) & ~15ull) + 16; if (n == 0) need += 16;
  if (n > (1ull << 31)) fatalViolation ("memory", "allocation of absurd size");
  heapTop += need;
  if (heapTop >= HEAP0 + HEAPSZ) abortPath ("heap exhausted");
  memset ((void *) a, 0xCD, n);
  markAlloc (a, n);
  allocs[a] = AllocInfo{ n, kind, false };
  return a;
}
static void clearRange (u64 a, u64 n) // forget symbolic entries wholly inside; concretise straddling ones
{
  if (!inArena (a)) return;
  uint8_t *p = &stateOf (a);
  for (u64 i = 0; i < n; i++)
    {
      if (!(p[i] & (ST_SYM0 | ST_SYMN))) continue;
      u64 st = a + i;
      while (!(stateOf (st) & ST_SYM0)) st--;
      SymEnt e = shadow[st];
      if (st < a || st + e.n > a + n)
        {
          Val v{ 0, e.s, nullptr };
          u64 c = concretize (v, e.n * 8);
          memcpy ((void *) st, &c, e.n);
        }
      for (unsigned k = 0; k < e.n; k++) stateOf (st + k) &= ~(ST_SYM0 | ST_SYMN);
      shadow.erase (st);
      i = st + e.n - a - 1;
    }
}
static void heapFree (u64 a, uint8_t kind)
{
  if (!a) return;
  if (!inArena (a)) { ::free ((void *) a); return; }
  auto it = allocs.find (a);
  if (it == allocs.end ()) fatalViolation ("memory", "free of a pointer that was not allocated");
  if (it->second.freed) fatalViolation ("memory", "double free");
  if (it->second.kind != kind) fatalViolation ("memory", "allocation and deallocation functions do not match");
  it->second.freed = true;
  clearRange (a, it->second.size);
  memset (&stateOf (a), ST_FREED, it->second.size);
  memset ((void *) a, 0xDD, it->second.size);
}
static Val loadRaw (u64 a, unsigned n, const char *what)
{
  ck (a, n, what);
  if (inArena (a))
    {
      uint8_t *p = &stateOf (a);
      bool any = false;
      for (unsigned i = 0; i < n; i++) if (p[i] & (ST_SYM0 | ST_SYMN)) { any = true; break; }
      if (any)
        {
          if (p[0] & ST_SYM0)
            {
              SymEnt e = shadow[a];
              if (e.n == n) return Val{ 0, e.s, nullptr };
              if (e.n > n && e.s->k == K_INT)
                return mkInt (e.s->e, e.s->lo, e.s->hi, n * 8);
            }
          // unaligned view of symbolic bytes: split on their values
          for (unsigned i = 0; i < n; i++)
            if (p[i] & (ST_SYM0 | ST_SYMN))
              {
                u64 st = a + i; while (!(stateOf (st) & ST_SYM0)) st--;
                SymEnt e = shadow[st];
                Val v{ 0, e.s, nullptr };
                u64 c = concretize (v, e.n * 8);
                memcpy ((void *) st, &c, e.n);
                for (unsigned k = 0; k < e.n; k++) stateOf (st + k) &= ~(ST_SYM0 | ST_SYMN);
                shadow.erase (st);
              }
        }
    }
  u64 v = 0;
  memcpy (&v, (void *) a, n);
  return CV (v);
}
static void storeRaw (u64 a, const Val &v, unsigned n, const char *what)
{
  ck (a, n, what);
  clearRange (a, n);
  if (!v.s) { memcpy ((void *) a, &v.u, n); return; }
  if (!inArena (a)) { u64 c = concretize (v, n * 8); memcpy ((void *) a, &c, n); return; }
  Sym *s = v.s;
  if (s->k == K_BOOL) { Val x = boolToInt (v, n * 8, 1); if (!x.s) { memcpy ((void *) a, &x.u, n); return; } s = x.s; }
  shadow[a] = SymEnt{ s, n };
  stateOf (a) |= ST_SYM0;
  for (unsigned k = 1; k < n; k++) stateOf (a + k) |= ST_SYMN;
  memset ((void *) a, 0xEE, n);
}
static void memCopy (u64 d, u64 s, u64 n)
{
  if (!n) return;
  ck (s, n, "read"); ck (d, n, "write");
  std::vector<std::pair<u64, SymEnt>> es;
  if (inArena (s))
    {
      for (u64 i = 0; i < n; i++)
        {
          uint8_t f = stateOf (s + i);
          if (!(f & (ST_SYM0 | ST_SYMN))) continue;
          u64 st = s + i; while (!(stateOf (st) & ST_SYM0)) st--;
          SymEnt e = shadow[st];
          if (st < s || st + e.n > s + n)
            {
              Val v{ 0, e.s, nullptr }; u64 c = concretize (v, e.n * 8);
              memcpy ((void *) st, &c, e.n);
              for (unsigned k = 0; k < e.n; k++) stateOf (st + k) &= ~(ST_SYM0 | ST_SYMN);
              shadow.erase (st);
              continue;
            }
          es.push_back ({ st - s, e });
          i = st + e.n - s - 1;
        }
    }
  clearRange (d, n);
  memmove ((void *) d, (void *) s, n);
  for (auto &p : es) storeRaw (d + p.first, Val{ 0, p.second.s, nullptr }, p.second.n, "write");
}
static bool anySym (u64 a, u64 n)
{ if (!inArena (a)) return false; for (u64 i = 0; i < n; i++) if (stateOf (a + i) & (ST_SYM0 | ST_SYMN)) return true; return false; }

// ---------------------------------------------------------------- module
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u64, Function *> fnOf;
static const u64 FN0 = 0x300000000000ull;
struct Opnd { int slot; Val c; };
struct Ins
{
  Instruction *I; unsigned op; int dst = -1; unsigned w = 0; bool isF = false;
  std::vector<Opnd> o;
  unsigned sz = 0; // access size
  int64_t off = 0; std::vector<std::pair<int, int64_t>> idx; // gep: operand index, scale
  std::vector<unsigned> iw;
  int s0 = -1, s1 = -1;
  Function *callee = nullptr; int icpt = -1;
  std::vector<std::pair<i128, int>> cases;
};
struct PhiCopy { int dst; Opnd o; };
struct Blk { std::vector<Ins> ins; std::map<int, std::vector<PhiCopy>> phis; size_t gid; bool seen = false; BasicBlock *bb; };
struct Fn { Function *F; std::vector<Blk> b; int nslots; };
static std::unordered_map<Function *, Fn *> fns;
static std::unordered_map<const BasicBlock *, size_t> bbId;
static std::vector<std::pair<Function *, Ins *>> cstack;

static std::string where ()
{
  std::string r;
  int n = 0;
  for (auto it = cstack.rbegin (); it != cstack.rend () && n < 12; ++it, ++n)
    {
      r += demangle (it->first->getName ().str ()).substr (0, 80);
      if (it->second && it->second->I)
        if (auto &l = it->second->I->getDebugLoc ())
          { DILocation *d = l.get (); while (d) { r += ":" + std::to_string (d->getLine ()); d = d->getInlinedAt (); if (d) r += "<-" + d->getScope ()->getSubprogram ()->getName ().str (); } }
      r += " < ";
    }
  return r;
}
static bool isFl (Type *t) { return t->isDoubleTy () || t->isFloatTy (); }
static unsigned widthOf (Type *t)
{
  if (t->isIntegerTy ()) return t->getIntegerBitWidth ();
  if (t->isPointerTy () || t->isDoubleTy ()) return 64;
  if (t->isFloatTy ()) return 32;
  return 0;
}
static u64 globalAddr (const GlobalValue *g);
static Val constVal (const Constant *c)
{
  if (auto *ci = dyn_cast<ConstantInt> (c))
    { if (ci->getBitWidth () > 64) { Val *a = new Val[2]; a[0] = CV (ci->getValue ().extractBitsAsZExtValue (64, 0)); a[1] = CV (ci->getValue ().lshr (64).trunc (64).getZExtValue ()); return Val{ a[0].u, nullptr, nullptr }; } return CV (ci->getZExtValue ()); }
  if (auto *cf = dyn_cast<ConstantFP> (c))
    {
      if (c->getType ()->isDoubleTy ()) return DV (cf->getValueAPF ().convertToDouble ());
      if (c->getType ()->isFloatTy ()) { float f = cf->getValueAPF ().convertToFloat (); uint32_t u; memcpy (&u, &f, 4); return CV (u); }
      return CV (0);
    }
  if (isa<ConstantPointerNull> (c)) return CV (0);
  if (auto *g = dyn_cast<GlobalValue> (c)) return CV (globalAddr (g));
  Type *t = c->getType ();
  if (t->isStructTy () || t->isArrayTy () || t->isVectorTy ())
    {
      unsigned n = t->isStructTy () ? t->getStructNumElements () : t->isArrayTy () ? t->getArrayNumElements () : cast<FixedVectorType> (t)->getNumElements ();
      Val *a = new Val[n + 1];
      for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement (i); a[i] = e ? constVal (e) : CV (0); }
      return Val{ 0, nullptr, a };
    }
  if (isa<UndefValue> (c)) return CV (0);
  if (auto *ce = dyn_cast<ConstantExpr> (c))
    {
      switch (ce->getOpcode ())
        {
        case Instruction::GetElementPtr:
          {
            auto *gep = cast<GEPOperator> (ce);
            APInt off (64, 0);
            if (!gep->accumulateConstantOffset (*DL, off)) abortPath ("const gep");
            return CV (constVal (cast<Constant> (gep->getPointerOperand ())).u + off.getSExtValue ());
          }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
          return constVal (ce->getOperand (0));
        case Instruction::Trunc: { Val v = constVal (ce->getOperand (0)); return CV (zx (v.u, widthOf (t))); }
        case Instruction::Sub: return CV (constVal (ce->getOperand (0)).u - constVal (ce->getOperand (1)).u);
        case Instruction::Add: return CV (constVal (ce->getOperand (0)).u + constVal (ce->getOperand (1)).u);
        case Instruction::ICmp:
          {
            u64 a = constVal (ce->getOperand (0)).u, b = constVal (ce->getOperand (1)).u;
            return CV (ce->getPredicate () == CmpInst::ICMP_EQ ? a == b : a != b);
          }
        default: abortPath ("constant expression");
        }
    }
  abortPath ("constant kind");
}
static void initMem (u64 a, const Constant *c)
{
  Type *t = c->getType ();
  if (isa<ConstantAggregateZero> (c) || isa<UndefValue> (c)) { memset ((void *) a, 0, DL->getTypeAllocSize (t)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential> (c)) { StringRef r = cd->getRawDataValues (); memcpy ((void *) a, r.data (), r.size ()); return; }
  if (t->isStructTy ())
    {
      const StructLayout *sl = DL->getStructLayout (cast<StructType> (t));
      for (unsigned i = 0; i < t->getStructNumElements (); i++) initMem (a + sl->getElementOffset (i), c->getAggregateElement (i));
      return;
    }
  if (t->isArrayTy ())
    {
      u64 es = DL->getTypeAllocSize (t->getArrayElementType ());
      for (unsigned i = 0; i < t->getArrayNumElements (); i++) initMem (a + i * es, c->getAggregateElement (i));
      return;
    }
  Val v = constVal (c);
  memcpy ((void *) a, &v.u, DL->getTypeStoreSize (t));
}
static std::vector<const GlobalVariable *> pendingInit;
static u64 globalAddr (const GlobalValue *g)
{
  auto it = gaddr.find (g);
  if (it != gaddr.end ()) return it->second;
  if (auto *al = dyn_cast<GlobalAlias> (g))
    { u64 a = constVal (al->getAliasee ()).u; gaddr[g] = a; return a; }
  if (auto *f = dyn_cast<Function> (g))
    {
      u64 a = 0;
      if (f->isDeclaration ()) a = (u64) dlsym (RTLD_DEFAULT, f->getName ().str ().c_str ());
      if (!a) a = FN0 + 16 * (fnOf.size () + 1);
      gaddr[g] = a; fnOf[a] = const_cast<Function *> (f);
      return a;
    }
  auto *v = cast<GlobalVariable> (g);
  if (v->isDeclaration ())
    {
      u64 a = (u64) dlsym (RTLD_DEFAULT, v->getName ().str ().c_str ());
      if (!a) { if (!v->hasExternalWeakLinkage ()) fprintf (stderr, "unresolved global %s\n", v->getName ().str ().c_str ()); }
      gaddr[g] = a; return a;
    }
  u64 sz = DL->getTypeAllocSize (v->getValueType ());
  u64 a = (glbTop + 31) & ~31ull; glbTop = a + sz + 32;
  if (glbTop >= GLB0 + GLBSZ) { fprintf (stderr, "globals too big\n"); exit (2); }
  markAlloc (a, sz); gaddr[g] = a;
  pendingInit.push_back (v);
  return a;
}

// ---------------------------------------------------------------- translation
enum Icpt { IC_NONE = -1, IC_NOP0, IC_VPINT, IC_VPDY, IC_CHOOSE, IC_ASSUME, IC_ASSERT, IC_REACH, IC_OBSI, IC_OBSD, IC_TIER, IC_CONC, IC_CONCD, IC_RLIM, IC_MERGE, IC_AND, IC_OR, IC_NOT,
  IC_RAND, IC_NEW, IC_NEWA, IC_MALLOC, IC_CALLOC, IC_REALLOC, IC_DEL, IC_DELA, IC_FREE, IC_THROW, IC_EXALLOC, IC_EXFREE, IC_BEGINCATCH, IC_ENDCATCH, IC_RETHROW, IC_TERMINATE, IC_EXIT,
  IC_GUARDACQ, IC_GUARDREL, IC_MEMCMP, IC_MEMCPY, IC_MEMSET, IC_STRLEN, IC_MEMCHR, IC_FLOOR, IC_CEIL, IC_ROUND, IC_FABS, IC_TRUNC, IC_FMATH1, IC_FMATH2, IC_FMIN, IC_FMAX, IC_RET0ARG, IC_PRINT, IC_ABS, IC_LROUND, IC_RPUSH, IC_WRITE, IC_DIR, IC_STRTOL, IC_STRTOD, IC_STRTOF, IC_TOSTR };
static std::unordered_map<std::string, int> icpt;
static void initIcpt ()
{
  icpt = { { "vp_int", IC_VPINT }, { "vp_dy", IC_VPDY }, { "vp_choose", IC_CHOOSE }, { "vp_assume_", IC_ASSUME }, { "vp_assert_", IC_ASSERT }, { "vp_reach", IC_REACH }, { "vp_obs_i", IC_OBSI }, { "vp_obs_d", IC_OBSD }, { "vp_tier", IC_TIER }, { "vp_conc", IC_CONC }, { "vp_concd", IC_CONCD }, { "vp_rand_limit", IC_RLIM }, { "vp_merge_exit", IC_MERGE }, { "vp_and", IC_AND }, { "vp_or", IC_OR }, { "vp_not", IC_NOT },
    { "rand", IC_RAND }, { "srand", IC_NOP0 }, { "_Znwm", IC_NEW }, { "_Znam", IC_NEWA }, { "malloc", IC_MALLOC }, { "calloc", IC_CALLOC }, { "realloc", IC_REALLOC }, { "_ZdlPv", IC_DEL }, { "_ZdlPvm", IC_DEL }, { "_ZdaPv", IC_DELA }, { "_ZdaPvm", IC_DELA }, { "free", IC_FREE },
    { "__cxa_throw", IC_THROW }, { "__cxa_allocate_exception", IC_EXALLOC }, { "__cxa_free_exception", IC_EXFREE }, { "__cxa_begin_catch", IC_BEGINCATCH }, { "__cxa_end_catch", IC_ENDCATCH }, { "__cxa_rethrow", IC_RETHROW }, { "_ZSt9terminatev", IC_TERMINATE }, { "__clang_call_terminate", IC_TERMINATE }, { "abort", IC_TERMINATE }, { "__cxa_pure_virtual", IC_TERMINATE }, { "__assert_fail", IC_TERMINATE }, { "exit", IC_EXIT }, { "_exit", IC_EXIT },
    { "__cxa_atexit", IC_NOP0 }, { "__cxa_guard_acquire", IC_GUARDACQ }, { "__cxa_guard_release", IC_GUARDREL }, { "__cxa_guard_abort", IC_NOP0 },
    { "memcmp", IC_MEMCMP }, { "bcmp", IC_MEMCMP }, { "memcpy", IC_MEMCPY }, { "memmove", IC_MEMCPY }, { "memset", IC_MEMSET }, { "strlen", IC_STRLEN }, { "memchr", IC_MEMCHR },
    { "floor", IC_FLOOR }, { "ceil", IC_CEIL }, { "round", IC_ROUND }, { "fabs", IC_FABS }, { "trunc", IC_TRUNC }, { "exp", IC_FMATH1 }, { "log", IC_FMATH1 }, { "sqrt", IC_FMATH1 }, { "pow", IC_FMATH2 }, { "fmod", IC_FMATH2 }, { "fmin", IC_FMIN }, { "fmax", IC_FMAX }, { "lround", IC_LROUND },
    { "printf", IC_PRINT }, { "puts", IC_PRINT }, { "putchar", IC_PRINT }, { "fprintf", IC_PRINT }, { "fflush", IC_PRINT }, { "fwrite", IC_PRINT }, { "perror", IC_PRINT }, { "fputc", IC_PRINT }, { "fputs", IC_PRINT }, { "abs", IC_ABS },
    { "vp_rand_push", IC_RPUSH }, { "vp_write", IC_WRITE }, { "vp_dir", IC_DIR }, { "strtol", IC_STRTOL }, { "__isoc23_strtol", IC_STRTOL }, { "strtod", IC_STRTOD }, { "atof", IC_STRTOD }, { "atoi", IC_STRTOL }, { "strtof", IC_STRTOF } };
}
static int icptOf (Function *f)
{
  if (f->getName ().starts_with ("_ZN9__gnu_cxx12__to_xstring")) return IC_TOSTR;
  auto it = icpt.find (f->getName ().str ());
  return it == icpt.end () ? IC_NONE : it->second;
}
static Fn *translate (Function *F)
{
  auto it = fns.find (F);
  if (it != fns.end ()) return it->second;
  Fn *f = new Fn; f->F = F; fns[F] = f;
  std::unordered_map<const Value *, int> slot; int ns = 0;
  for (auto &a : F->args ()) slot[&a] = ns++;
  std::unordered_map<const BasicBlock *, int> bi; int nb = 0;
  for (auto &b : *F) { bi[&b] = nb++; for (auto &i : b) if (!i.getType ()->isVoidTy ()) slot[&i] = ns++; }
  f->nslots = ns; f->b.resize (nb);
  auto opnd = [&] (Value *v) -> Opnd {
    if (auto *c = dyn_cast<Constant> (v)) return Opnd{ -1, constVal (c) };
    auto s = slot.find (v);
    if (s == slot.end ()) return Opnd{ -1, CV (0) };
    return Opnd{ s->second, CV (0) };
  };
  for (auto &b : *F)
    {
      Blk &B = f->b[bi[&b]]; B.bb = &b; B.gid = bbId[&b];
      for (auto &i : b)
        {
          if (auto *p = dyn_cast<PHINode> (&i))
            {
              for (unsigned k = 0; k < p->getNumIncomingValues (); k++)
                { auto &v = B.phis[bi[p->getIncomingBlock (k)]]; bool dup = false; for (auto &c : v) if (c.dst == slot[&i]) dup = true; if (!dup) v.push_back (PhiCopy{ slot[&i], opnd (p->getIncomingValue (k)) }); }
              continue;
            }
          if (isa<DbgInfoIntrinsic> (&i)) continue;
          if (auto *ii = dyn_cast<IntrinsicInst> (&i))
            {
              auto id = ii->getIntrinsicID ();
              if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::donothing) continue;
            }
          Ins n; n.I = &i; n.op = i.getOpcode ();
          if (!i.getType ()->isVoidTy ()) { n.dst = slot[&i]; n.w = widthOf (i.getType ()); n.isF = isFl (i.getType ()); }
          if (auto *cb = dyn_cast<CallBase> (&i))
            {
              for (auto &a : cb->args ()) n.o.push_back (isa<MetadataAsValue> (a) ? Opnd{ -1, CV (0) } : opnd (a));
              n.o.push_back (opnd (cb->getCalledOperand ()));
              n.callee = dyn_cast<Function> (cb->getCalledOperand ()->stripPointerCasts ());
              if (!n.callee) if (auto *al = dyn_cast<GlobalAlias> (cb->getCalledOperand ()->stripPointerCasts ())) n.callee = dyn_cast<Function> (al->getAliasee ()->stripPointerCasts ());
              if (n.callee) n.icpt = icptOf (n.callee);
              if (auto *iv = dyn_cast<InvokeInst> (&i)) { n.s0 = bi[iv->getNormalDest ()]; n.s1 = bi[iv->getUnwindDest ()]; }
            }
          else if (auto *g = dyn_cast<GetElementPtrInst> (&i))
            {
              n.o.push_back (opnd (g->getPointerOperand ()));
              for (auto gt = gep_type_begin (g), e = gep_type_end (g); gt != e; ++gt)
                {
                  Value *ix = gt.getOperand ();
                  if (StructType *st = gt.getStructTypeOrNull ()) { n.off += DL->getStructLayout (st)->getElementOffset (cast<ConstantInt> (ix)->getZExtValue ()); continue; }
                  int64_t sc = DL->getTypeAllocSize (gt.getIndexedType ());
                  if (auto *ci = dyn_cast<ConstantInt> (ix)) { n.off += sc * ci->getSExtValue (); continue; }
                  n.idx.push_back ({ (int) n.o.size (), sc }); n.iw.push_back (widthOf (ix->getType ()));
                  n.o.push_back (opnd (ix));
                }
            }
          else if (auto *br = dyn_cast<BranchInst> (&i))
            {
              if (br->isConditional ()) { n.o.push_back (opnd (br->getCondition ())); n.s0 = bi[br->getSuccessor (0)]; n.s1 = bi[br->getSuccessor (1)]; }
              else n.s0 = bi[br->getSuccessor (0)];
            }
          else if (auto *sw = dyn_cast<SwitchInst> (&i))
            {
              n.o.push_back (opnd (sw->getCondition ())); n.w = widthOf (sw->getCondition ()->getType ());
              n.s0 = bi[sw->getDefaultDest ()];
              for (auto &c : sw->cases ()) n.cases.push_back ({ sx (c.getCaseValue ()->getZExtValue (), n.w), bi[c.getCaseSuccessor ()] });
            }
          else
            {
              for (auto &v : i.operands ()) n.o.push_back (isa<BasicBlock> (v) ? Opnd{ -1, CV (0) } : opnd (v));
              if (auto *l = dyn_cast<LoadInst> (&i)) n.sz = DL->getTypeStoreSize (l->getType ());
              if (auto *st = dyn_cast<StoreInst> (&i)) { n.sz = DL->getTypeStoreSize (st->getValueOperand ()->getType ()); n.w = widthOf (st->getValueOperand ()->getType ()); }
              if (isa<CmpInst> (&i)) n.w = widthOf (i.getOperand (0)->getType ());
              if (isa<CastInst> (&i)) n.iw.push_back (widthOf (i.getOperand (0)->getType ()));
            }
          B.ins.push_back (std::move (n));
        }
    }
  return f;
}

// ---------------------------------------------------------------- integer ops
static Val ibin (unsigned op, const Val &a, const Val &b, unsigned w, Instruction *I)
{
  if (!a.s && !b.s)
    {
      u64 x = a.u, y = b.u; int64_t sa = sx (x, w), sb = sx (y, w); u64 r = 0;
      switch (op)
        {
        case Instruction::Add: r = x + y; break;
        case Instruction::Sub: r = x - y; break;
        case Instruction::Mul: r = x * y; break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y < 64 ? x << y : 0; break;
        case Instruction::LShr: r = y < 64 ? zx (x, w) >> y : 0; break;
        case Instruction::AShr: r = (u64) (sa >> (y < 63 ? y : 63)); break;
        case Instruction::UDiv: if (!zx (y, w)) fatalViolation ("divzero", "integer division by zero"); r = zx (x, w) / zx (y, w); break;
        case Instruction::URem: if (!zx (y, w)) fatalViolation ("divzero", "integer division by zero"); r = zx (x, w) % zx (y, w); break;
        case Instruction::SDiv: if (!sb) fatalViolation ("divzero", "integer division by zero"); r = sb == -1 ? (u64) -sa : (u64) (sa / sb); break;
        case Instruction::SRem: if (!sb) fatalViolation ("divzero", "integer division by zero"); r = sb == -1 ? 0 : (u64) (sa % sb); break;
        }
      return CV (zx (r, w));
    }
  if (w == 1)
    {
      switch (op)
        {
        case Instruction::And: return mkBool (zand (boolOf (a), boolOf (b)));
        case Instruction::Or: return mkBool (zor (boolOf (a), boolOf (b)));
        default: if (!b.s) return b.u & 1 ? mkBool (znot (boolOf (a))) : a; return mkBool (Z3_mk_xor (Z, boolOf (a), boolOf (b)));
        }
    }
  if (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor)
    {
      bool ab = a.s ? a.s->b != nullptr : a.u <= 1, bb = b.s ? b.s->b != nullptr : b.u <= 1;
      if (ab && bb)
        {
          Val x = ibin (op, a.s ? Val{ 0, mkBool (a.s->b).s, nullptr } : CV (a.u), b.s ? Val{ 0, mkBool (b.s->b).s, nullptr } : CV (b.u), 1, I);
          return x.s ? boolToInt (x, w, 1) : CV (x.u & 1);
        }
    }
  switch (op)
    {
    case Instruction::Add: { IV x = ivS (a, w), y = ivS (b, w); return mkInt (zadd (x.e, y.e), x.lo + y.lo, x.hi + y.hi, w); }
    case Instruction::Sub: { IV x = ivS (a, w), y = ivS (b, w); return mkInt (zsub (x.e, y.e), x.lo - y.hi, x.hi - y.lo, w); }
    case Instruction::Mul:
      {
        if (a.s && b.s)
          {
            if (countOf (a) <= countOf (b) && countOf (a) <= 256) return ibin (op, CV (concretize (a, w)), b, w, I);
            if (countOf (b) <= 256) return ibin (op, a, CV (concretize (b, w)), w, I);
          }
        IV x = ivS (a, w), y = ivS (b, w);
        i128 c[4] = { x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi }; i128 lo = c[0], hi = c[0];
        for (i128 v : c) { if (v < lo) lo = v; if (v > hi) hi = v; }
        return mkInt (zmul (x.e, y.e), lo, hi, w);
      }
    case Instruction::SDiv: case Instruction::SRem:
      {
        u64 yc = concretize (b, w); i128 c = sx (yc, w);
        if (c == 0) fatalViolation ("divzero", "integer division by zero");
        if (!a.s) return ibin (op, a, CV (yc), w, I);
        IV x = ivS (a, w);
        i128 ac = c < 0 ? -c : c;
        Z3_ast q = x.lo >= 0 ? Z3_mk_div (Z, x.e, zi (ac)) : zite (Z3_mk_ge (Z, x.e, zi (0)), Z3_mk_div (Z, x.e, zi (ac)), Z3_mk_unary_minus (Z, Z3_mk_div (Z, Z3_mk_unary_minus (Z, x.e), zi (ac))));
        i128 lo = x.lo / ac, hi = x.hi / ac;
        if (c < 0) { q = Z3_mk_unary_minus (Z, q); i128 t = lo; lo = -hi; hi = -t; }
        if (op == Instruction::SDiv) return mkInt (q, lo, hi, w);
        Z3_ast r = zsub (x.e, zmul (zi (c), q));
        return mkInt (r, x.lo >= 0 ? 0 : -(ac - 1), x.hi <= 0 ? 0 : ac - 1, w);
      }
    case Instruction::UDiv: case Instruction::URem:
      {
        u64 yc = concretize (b, w); i128 c = (i128) zx (yc, w);
        if (c == 0) fatalViolation ("divzero", "integer division by zero");
        if (!a.s) return ibin (op, a, CV (yc), w, I);
        IV x = ivU (a, w);
        if (op == Instruction::UDiv) return mkInt (Z3_mk_div (Z, x.e, zi (c)), x.lo / c, x.hi / c, w);
        if (x.hi < c) return mkInt (x.e, x.lo, x.hi, w);
        return mkInt (Z3_mk_mod (Z, x.e, zi (c)), 0, c - 1, w);
      }
    case Instruction::Shl:
      {
        u64 k = concretize (b, w); if (!a.s) return ibin (op, a, CV (k), w, I);
        IV x = ivS (a, w); i128 f = (i128) 1 << k; return mkInt (zmul (zi (f), x.e), x.lo * f, x.hi * f, w);
      }
    case Instruction::LShr:
      {
        u64 k = concretize (b, w); if (!a.s) return ibin (op, a, CV (k), w, I);
        IV x = ivU (a, w); i128 f = (i128) 1 << k; return mkInt (Z3_mk_div (Z, x.e, zi (f)), x.lo / f, x.hi / f, w);
      }
    case Instruction::AShr:
      {
        u64 k = concretize (b, w); if (!a.s) return ibin (op, a, CV (k), w, I);
        IV x = ivS (a, w); i128 f = (i128) 1 << k; return mkInt (Z3_mk_div (Z, x.e, zi (f)), fdiv128 (x.lo, f), fdiv128 (x.hi, f), w);
      }
    case Instruction::And:
      {
        const Val &c = a.s ? b : a; const Val &s = a.s ? a : b;
        if (!c.s)
          {
            u64 m = zx (c.u, w);
            if (m == 0) return CV (0);
            if ((m & (m + 1)) == 0) { IV x = ivS (s, w); i128 f = (i128) m + 1; if (x.lo >= 0 && x.hi < f) return s; return mkInt (Z3_mk_mod (Z, x.e, zi (f)), 0, f - 1, w); }
            u64 nm = zx (~m, w);
            if ((nm & (nm + 1)) == 0) { IV x = ivS (s, w); i128 f = (i128) nm + 1; return mkInt (zsub (x.e, Z3_mk_mod (Z, x.e, zi (f))), fdiv128 (x.lo, f) * f, x.hi, w); }
          }
        return ibin (op, CV (concretize (a, w)), CV (concretize (b, w)), w, I);
      }
    case Instruction::Xor:
      if (!b.s && zx (b.u, w) == zx (~0ull, w)) { IV x = ivS (a, w); return mkInt (zsub (zi (-1), x.e), -1 - x.hi, -1 - x.lo, w); }
      return ibin (op, CV (concretize (a, w)), CV (concretize (b, w)), w, I);
    case Instruction::Or:
      if (auto *pd = dyn_cast_or_null<PossiblyDisjointInst> (I)) if (pd->isDisjoint ()) return ibin (Instruction::Add, a, b, w, I);
      return ibin (op, CV (concretize (a, w)), CV (concretize (b, w)), w, I);
    }
  abortPath ("integer op");
}
static Val icmpV (CmpInst::Predicate p, const Val &a, const Val &b, unsigned w)
{
  if (!a.s && !b.s)
    {
      u64 x = zx (a.u, w), y = zx (b.u, w); int64_t sa = sx (x, w), sb = sx (y, w);
      switch (p)
        {
        case CmpInst::ICMP_EQ: return CV (x == y); case CmpInst::ICMP_NE: return CV (x != y);
        case CmpInst::ICMP_UGT: return CV (x > y); case CmpInst::ICMP_UGE: return CV (x >= y);
        case CmpInst::ICMP_ULT: return CV (x < y); case CmpInst::ICMP_ULE: return CV (x <= y);
        case CmpInst::ICMP_SGT: return CV (sa > sb); case CmpInst::ICMP_SGE: return CV (sa >= sb);
        case CmpInst::ICMP_SLT: return CV (sa < sb); default: return CV (sa <= sb);
        }
    }
  if (w == 1)
    {
      Z3_ast x = boolOf (a), y = boolOf (b);
      if (p == CmpInst::ICMP_EQ) return mkBool (Z3_mk_iff (Z, x, y));
      if (p == CmpInst::ICMP_NE) return mkBool (Z3_mk_xor (Z, x, y));
    }
  if (a.s && a.s->b && !b.s)
    {
      if (p == CmpInst::ICMP_EQ) return b.u == 0 ? mkBool (znot (a.s->b)) : b.u == 1 ? mkBool (a.s->b) : CV (0);
      if (p == CmpInst::ICMP_NE) return b.u == 0 ? mkBool (a.s->b) : b.u == 1 ? mkBool (znot (a.s->b)) : CV (1);
    }
  bool u = CmpInst::isUnsigned (p);
  IV x = u ? ivU (a, w) : ivS (a, w), y = u ? ivU (b, w) : ivS (b, w);
  unsigned code;
  switch (p)
    {
    case CmpInst::ICMP_EQ: code = 1; break; case CmpInst::ICMP_NE: code = 6; break;
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: code = 2; break;
    case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: code = 3; break;
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: code = 4; break;
    default: code = 5;
    }
  int conc = -1;
  switch (code)
    {
    case 2: if (x.lo > y.hi) conc = 1; else if (x.hi <= y.lo) conc = 0; break;
    case 3: if (x.lo >= y.hi) conc = 1; else if (x.hi < y.lo) conc = 0; break;
    case 4: if (x.hi < y.lo) conc = 1; else if (x.lo >= y.hi) conc = 0; break;
    case 5: if (x.hi <= y.lo) conc = 1; else if (x.lo > y.hi) conc = 0; break;
    case 1: if (x.lo > y.hi || x.hi < y.lo) conc = 0; break;
    default: if (x.lo > y.hi || x.hi < y.lo) conc = 1; break;
    }
  if (conc >= 0) return CV (conc);
  return mkBool (cmpAst (code, x.e, y.e));
}

// ---------------------------------------------------------------- exceptions
struct Exc { u64 obj, ti; };
static Exc curExc;
static std::vector<Exc> caught;
static std::unordered_map<u64, int> tiId;
static int typeId (u64 ti) { auto it = tiId.find (ti); if (it != tiId.end ()) return it->second; int n = (int) tiId.size () + 1; return tiId[ti] = n; }
static u64 vtSI, vtVMI;
static bool tiMatch (u64 thrown, u64 want)
{
  for (int d = 0; thrown && d < 20; d++)
    {
      if (thrown == want) return true;
      const char *n1 = *(const char **) (thrown + 8), *n2 = *(const char **) (want + 8);
      if (n1 && n2 && !strcmp (n1, n2)) return true;
      u64 vt = *(u64 *) thrown;
      if (vt == vtSI) thrown = *(u64 *) (thrown + 16);
      else if (vt == vtVMI)
        {
          unsigned nb = *(unsigned *) (thrown + 20);
          for (unsigned i = 0; i < nb; i++) if (tiMatch (*(u64 *) (thrown + 24 + 16 * i), want)) return true;
          return false;
        }
      else return false;
    }
  return false;
}
enum Status { RET, UNWIND };

// ---------------------------------------------------------------- intercepted functions
static int randLeft = 1 << 30;
static std::deque<Val> randQ;
static std::vector<Val> marks;
static std::string cstr (u64 a) { return std::string ((const char *) a); }
static u64 steps = 0, stepFlush = 0;
static double pathStart;
static Val freshInput (const std::string &name, int lo, int hi)
{
  std::string un = name + "#" + std::to_string (inputs.size ());
  Z3_ast e = Z3_mk_const (Z, Z3_mk_string_symbol (Z, un.c_str ()), IntS);
  pc (Z3_mk_ge (Z, e, zi (lo))); pc (Z3_mk_le (Z, e, zi (hi)));
  setModel (nullptr);
  return mkInt (e, lo, hi, 32);
}
static void doAssert (const Val &c, const std::string &id)
{
  SH->asserts++;
  if (!c.s)
    {
      SH->assertsConcrete++;
      if (zx (c.u, 32)) return;
      needModel (); reportViolation (id, curModel, "assertion false on this path @ " + where ());
      return;
    }
  Val nz = icmpV (CmpInst::ICMP_NE, c, CV (0), 32);
  if (!nz.s) { doAssert (CV (nz.u), id); return; }
  Z3_ast cond = nz.s->e;
  needModel ();
  if (evalBool (cond) == 0)
    {
      SH->assertsSolver++;
      reportViolation (id, curModel, "assertion violated @ " + where ());
      Z3_model m = nullptr; int r = query (cond, &m);
      if (r == 0) { SH->paths++; finishProcess (); }
      pc (cond); setModel (r == 1 ? m : nullptr); if (m) Z3_model_dec_ref (Z, m);
      return;
    }
  Z3_model m = nullptr;
  int r = query (znot (cond), &m);
  SH->assertsSolver++;
  if (r == 0)
    {
      if (optDump > 0 && SH->dumps.load () < optDump)
        {
          long k = SH->dumps++;
          if (k < optDump)
            {
              Z3_solver_push (Z, S); Z3_solver_assert (Z, S, znot (cond));
              char f[64]; snprintf (f, sizeof f, "q_%04ld.smt2", k);
              appendFile (f, std::string ("(set-info :status unsat)\n") + Z3_solver_to_string (Z, S) + "(check-sat)\n");
              Z3_solver_pop (Z, S, 1);
            }
        }
      pc (cond); // lemma
      return;
    }
  if (r < 0)
    {
      SH->inconclusive++; appendFile ("errors.txt", "solver unknown on assertion " + id + "\n");
      pc (cond); return;
    }
  reportViolation (id, m, "assertion violated @ " + where ());
  Z3_model_dec_ref (Z, m);
  pc (cond); // curModel satisfies cond
}
static Val fmath1 (const std::string &n, Val a)
{
  if (!a.s) { double x = asD (a); return DV (n == "exp" ? exp (x) : n == "log" ? log (x) : sqrt (x)); }
  if (countOf (a) <= 256) return fmath1 (n, DV (concD (a)));
  DR d = getDR (a);
  if (n == "exp")
    {
      std::string key = "exp:" + std::to_string (Z3_get_ast_id (Z, d.e));
      auto it = opCache.find (key); if (it != opCache.end ()) return it->second;
      Z3_ast r = fresh ("exp", RealS); double lo = exp (d.lo) * (1 - 1e-12), hi = exp (d.hi) * (1 + 1e-12);
      pc (Z3_mk_ge (Z, r, zreal (lo))); pc (Z3_mk_le (Z, r, zreal (hi))); setModel (nullptr); usedRound = true;
      return opCache[key] = mkDR (r, lo, hi);
    }
  abortPath ("symbolic " + n);
}
static Val fminmax (bool mn, const Val &a, const Val &b)
{
  Val c = fcmpV (CmpInst::FCMP_OLT, a, b);
  if (!c.s) return (c.u & 1) == (mn ? 1u : 0u) ? a : b;
  return mn ? selectV (c.s->e, a, b, 64, true) : selectV (c.s->e, b, a, 64, true);
}
static Status intercept (int ic, Ins &in, std::vector<Val> &A, Val &ret)
{
  ret = CV (0);
  switch (ic)
    {
    case IC_NOP0: case IC_PRINT: return RET;
    case IC_VPINT:
      {
        int lo = (int) A[1].u, hi = (int) A[2].u; std::string nm = cstr (A[0].u);
        if (lo > hi) abortPath ("empty input range");
        Val v = freshInput (nm, lo, hi);
        if (v.s) inputs.push_back (Input{ nm, true, 0, v.s->e, 0 }); else inputs.push_back (Input{ nm, false, (double) lo, nullptr, 0 });
        ret = v; return RET;
      }
    case IC_VPDY:
      {
        int lo = (int) A[1].u, hi = (int) A[2].u, g = (int) A[3].u; std::string nm = cstr (A[0].u);
        Val v = freshInput (nm, lo, hi);
        if (!v.s) { double d = ldexp ((double) lo, -g); inputs.push_back (Input{ nm, false, d, nullptr, 0 }); ret = DV (d); return RET; }
        inputs.push_back (Input{ nm, true, 0, v.s->e, g });
        ret = mkDI (v.s->e, lo, hi, g); return RET;
      }
    case IC_CHOOSE:
      {
        int n = (int) concretize (A[1], 32); std::string nm = cstr (A[0].u);
        int c = 0;
        for (; c < n - 1; c++) { SH->branches++; if (doFork ()) break; }
        inputs.push_back (Input{ nm, false, (double) c, nullptr, 0 });
        ret = CV (c); return RET;
      }
    case IC_ASSUME:
      {
        Val c = A[0];
        if (!c.s) { if (!zx (c.u, 32)) { SH->infeasible++; finishProcess (); } return RET; }
        Val nz = icmpV (CmpInst::ICMP_NE, c, CV (0), 32);
        if (!nz.s) { if (!nz.u) { SH->infeasible++; finishProcess (); } return RET; }
        if (evalBool (nz.s->e) == 1) { pc (nz.s->e); return RET; }
        pc (nz.s->e); setModel (nullptr); needModel ();
        return RET;
      }
    case IC_ASSERT: doAssert (A[0], cstr (A[1].u)); return RET;
    case IC_REACH: SH->nreach++; { static std::set<std::string> seen; std::string id = cstr (A[0].u); if (seen.insert (id).second) { needModel (); appendFile ("reach.txt", id + "\n"); } } return RET;
    case IC_OBSI: obsv.push_back (Obs{ cstr (A[0].u), false, A[1], 64 }); return RET;
    case IC_OBSD: obsv.push_back (Obs{ cstr (A[0].u), true, A[1], 64 }); return RET;
    case IC_TIER: ret = CV (optTier); return RET;
    case IC_CONC: ret = CV (concretize (A[0], 32)); return RET;
    case IC_CONCD: ret = DV (concD (A[0])); return RET;
    case IC_RLIM: randLeft = (int) A[0].u; return RET;
    case IC_MERGE: pathDone ();
    case IC_AND: case IC_OR: case IC_NOT:
      {
        auto tb = [&] (const Val &v) { Val z = icmpV (CmpInst::ICMP_NE, v, CV (0), 32); return boolOf (z); };
        Z3_ast e = ic == IC_NOT ? znot (tb (A[0])) : ic == IC_AND ? zand (tb (A[0]), tb (A[1])) : zor (tb (A[0]), tb (A[1]));
        bool sy = A[0].s || (ic != IC_NOT && A[1].s);
        if (!sy) { bool a = zx (A[0].u, 32), b = ic == IC_NOT ? false : zx (A[1].u, 32); ret = CV (ic == IC_NOT ? !a : ic == IC_AND ? a && b : a || b); return RET; }
        e = Z3_simplify (Z, e);
        Val bv = mkBool (e); ret = bv.s ? boolToInt (bv, 32, 1) : bv; return RET;
      }
    case IC_RPUSH: randQ.push_back (A[0]); return RET;
    case IC_DIR:
      {
        // a scratch directory of this process
        std::string d = optOut + "/d" + std::to_string (getpid ());
        mkdir (d.c_str (), 0777);
        u64 a = heapAlloc (d.size () + 1, 3); memcpy ((void *) a, d.c_str (), d.size () + 1);
        ret = CV (a); return RET;
      }
    case IC_WRITE:
      {
        // file contents: every '%' of the template is the next value; a symbolic one is
        // written as a marker numeral that strtol/strtod turn back into the variable
        std::string path = cstr (A[0].u), t = cstr (A[1].u), o;
        u64 k = 0;
        for (char c : t)
          {
            if (c != '%') { o += c; continue; }
            Val v = loadRaw (A[2].u + 8 * k++, 8, "read");
            if (v.s) { o += std::to_string (1500000000 + marks.size ()); marks.push_back (v); }
            else { char b[64]; snprintf (b, sizeof b, "%.17g", asD (v)); o += b; }
          }
        FILE *f = fopen (path.c_str (), "w"); if (!f) abortPath ("vp_write " + path);
        fwrite (o.data (), 1, o.size (), f); fclose (f);
        return RET;
      }
    case IC_TOSTR:
      {
        // std::to_string (double): (result, vsnprintf, size, format, value); a symbolic value is
        // written as a marker numeral, as in vp_write
        Val v = A[4]; double d;
        if (v.s)
          {
            size_t k = 0; while (k < marks.size () && marks[k].s != v.s) k++;
            if (k == marks.size ()) marks.push_back (v);
            d = 1500000000.0 + k;
          }
        else d = asD (v);
        char b[400]; int n = snprintf (b, sizeof b, cstr (A[3].u).c_str (), d);
        u64 p = A[0].u + 16;
        if (n > 15) { p = heapAlloc (n + 1, 1); storeRaw (A[0].u + 16, CV (n), 8, "write"); }
        storeRaw (A[0].u, CV (p), 8, "write"); storeRaw (A[0].u + 8, CV (n), 8, "write");
        for (int i = 0; i <= n; i++) storeRaw (p + i, CV ((unsigned char) b[i]), 1, "write");
        return RET;
      }
    case IC_STRTOL:
    case IC_STRTOF: // a marked value is a small dyadic number, exact in single precision
    case IC_STRTOD:
      {
        double d; long l = 0; bool one = A.size () == 1;
        char *end = nullptr; const char *p = (const char *) A[0].u;
        if (ic == IC_STRTOL) { errno = 0; l = strtol (p, &end, one ? 10 : (int) A[2].u); d = (double) l; } else d = strtod (p, &end);
        if (!one && A[1].u) { storeRaw (A[1].u, CV ((u64) end), 8, "write"); }
        if (d >= 1500000000 && d < 1500000000 + (double) marks.size () && d == std::floor (d))
          { Val v = marks[(size_t) (d - 1500000000)]; ret = ic == IC_STRTOL ? fptoint (v, one ? 32 : 64) : v; return RET; }
        if (ic == IC_STRTOF) { float f = strtof (p, nullptr); uint32_t u; memcpy (&u, &f, 4); ret = CV (u); return RET; }
        ret = ic == IC_STRTOL ? CV (one ? zx ((u64) l, 32) : (u64) l) : DV (d);
        return RET;
      }
    case IC_RAND:
      {
        if (!randQ.empty ()) { ret = randQ.front (); randQ.pop_front (); return RET; }
        if (randLeft-- <= 0)
          {
            // beyond the limit: a fixed fair pseudo-random sequence
            static u64 lcg = 88172645463325252ull;
            lcg ^= lcg << 13; lcg ^= lcg >> 7; lcg ^= lcg << 17;
            u64 r = lcg & 0x7fffffff;
            inputs.push_back (Input{ "rand", false, (double) r, nullptr, 0 }); ret = CV (r); return RET;
          }
        Val v = freshInput ("rand", 0, 2147483647);
        inputs.push_back (Input{ "rand", true, 0, v.s->e, 0 });
        ret = v; return RET;
      }
    case IC_NEW: ret = CV (heapAlloc (concretize (A[0], 64), 1)); return RET;
    case IC_NEWA: ret = CV (heapAlloc (concretize (A[0], 64), 2)); return RET;
    case IC_MALLOC: ret = CV (heapAlloc (concretize (A[0], 64), 3)); return RET;
    case IC_CALLOC: { u64 n = concretize (A[0], 64) * concretize (A[1], 64); u64 a = heapAlloc (n, 3); memset ((void *) a, 0, n); ret = CV (a); return RET; }
    case IC_REALLOC:
      {
        u64 o = A[0].u, n = concretize (A[1], 64); u64 a = heapAlloc (n, 3);
        if (o) { u64 os = allocs[o].size; memCopy (a, o, std::min (os, n)); heapFree (o, 3); }
        ret = CV (a); return RET;
      }
    case IC_DEL: heapFree (A[0].u, 1); return RET;
    case IC_DELA: heapFree (A[0].u, 2); return RET;
    case IC_FREE: heapFree (A[0].u, 3); return RET;
    case IC_EXALLOC: ret = CV (heapAlloc (A[0].u, 4)); return RET;
    case IC_EXFREE: return RET;
    case IC_THROW: curExc = Exc{ A[0].u, A[1].u }; return UNWIND;
    case IC_BEGINCATCH: caught.push_back (curExc); ret = CV (A[0].u); return RET;
    case IC_ENDCATCH: if (!caught.empty ()) caught.pop_back (); return RET;
    case IC_RETHROW: if (caught.empty ()) fatalViolation ("terminate", "rethrow without exception"); curExc = caught.back (); return UNWIND;
    case IC_TERMINATE: fatalViolation ("terminate", "abnormal termination: " + (in.callee ? in.callee->getName ().str () : std::string ()));
    case IC_EXIT: fatalViolation ("exit", "process exit requested");
    case IC_GUARDACQ: ret = CV (*(uint8_t *) A[0].u == 0); return RET;
    case IC_GUARDREL: *(uint8_t *) A[0].u = 1; return RET;
    case IC_MEMCMP:
      {
        u64 n = concretize (A[2], 64); u64 a = A[0].u, b = A[1].u; if (!n) { ret = CV (0); return RET; }
        ck (a, n, "read"); ck (b, n, "read");
        if (anySym (a, n) || anySym (b, n))
          {
            for (u64 i = 0; i < n; i++)
              {
                Val x = loadRaw (a + i, 1, "read"), y = loadRaw (b + i, 1, "read");
                Val eq = icmpV (CmpInst::ICMP_EQ, x, y, 8);
                bool e = eq.s ? branchOn (eq.s->e) : eq.u;
                if (e) continue;
                Val lt = icmpV (CmpInst::ICMP_ULT, x, y, 8);
                bool l = lt.s ? branchOn (lt.s->e) : lt.u;
                ret = CV (zx (l ? -1 : 1, 32)); return RET;
              }
            ret = CV (0); return RET;
          }
        ret = CV (zx ((u64) (int64_t) memcmp ((void *) a, (void *) b, n), 32)); return RET;
      }
    case IC_MEMCPY: memCopy (A[0].u, A[1].u, concretize (A[2], 64)); ret = A[0]; return RET;
    case IC_MEMSET:
      {
        u64 n = concretize (A[2], 64); u64 a = A[0].u; ret = A[0]; if (!n) return RET;
        ck (a, n, "write"); clearRange (a, n); memset ((void *) a, (int) concretize (A[1], 32), n); return RET;
      }
    case IC_STRLEN: { u64 a = A[0].u, n = 0; for (;; n++) { Val c = loadRaw (a + n, 1, "read"); Val z = icmpV (CmpInst::ICMP_EQ, c, CV (0), 8); bool e = z.s ? branchOn (z.s->e) : z.u; if (e) break; } ret = CV (n); return RET; }
    case IC_MEMCHR:
      {
        u64 n = concretize (A[2], 64), a = A[0].u, ch = concretize (A[1], 32) & 255;
        for (u64 i = 0; i < n; i++) { Val c = loadRaw (a + i, 1, "read"); Val z = icmpV (CmpInst::ICMP_EQ, c, CV (ch), 8); bool e = z.s ? branchOn (z.s->e) : z.u; if (e) { ret = CV (a + i); return RET; } }
        ret = CV (0); return RET;
      }
    case IC_FLOOR: ret = ffloor (A[0]); return RET;
    case IC_CEIL: ret = fceil (A[0]); return RET;
    case IC_ROUND: ret = fround (A[0]); return RET;
    case IC_FABS: ret = ffabs (A[0]); return RET;
    case IC_TRUNC: ret = ftrunc (A[0]); return RET;
    case IC_LROUND: ret = fptoint (fround (A[0]), 64); return RET;
    case IC_FMATH1: ret = fmath1 (in.callee->getName ().str (), A[0]); return RET;
    case IC_FMATH2:
      { double x = concD (A[0]), y = concD (A[1]); ret = DV (in.callee->getName () == "pow" ? pow (x, y) : fmod (x, y)); return RET; }
    case IC_FMIN: ret = fminmax (true, A[0], A[1]); return RET;
    case IC_FMAX: ret = fminmax (false, A[0], A[1]); return RET;
    case IC_ABS: { Val n = ibin (Instruction::Sub, CV (0), A[0], 32, nullptr); Val c = icmpV (CmpInst::ICMP_SLT, A[0], CV (0), 32); if (!c.s) ret = c.u ? n : A[0]; else ret = selectV (c.s->e, n, A[0], 32, false); return RET; }
    }
  abortPath ("intercept");
}

// ---------------------------------------------------------------- native calls
struct R2 { u64 a, b; };
static Status nativeCall (Ins &in, u64 addr, std::vector<Val> &A, Val &ret)
{
  auto *cb = cast<CallBase> (in.I);
  std::string nm = in.callee ? in.callee->getName ().str () : "?";
  if (!addr) { abortPath ("missing function " + demangle (nm)); }
  u64 iv[6] = { 0 }; double fv[8] = { 0 }; int ni = 0, nf = 0;
  bool isOstream = nm.compare (0, 5, "_ZNSo") == 0 || nm.compare (0, 5, "_ZStl") == 0;
  for (unsigned i = 0; i < A.size (); i++)
    {
      Type *t = cb->getArgOperand (i)->getType ();
      Val v = A[i];
      if (v.agg) abortPath ("aggregate argument to native " + nm);
      if (v.s)
        {
          if (isOstream) { ret = A[0]; return RET; }
          v = t->isDoubleTy () ? DV (concD (v)) : CV (concretize (v, widthOf (t)));
        }
      if (t->isDoubleTy ()) { if (nf >= 8) abortPath ("native args"); fv[nf++] = asD (v); }
      else if (t->isFloatTy ()) { float f; memcpy (&f, &v.u, 4); double d = 0; memcpy (&d, &f, 4); fv[nf++] = d; }
      else { if (ni >= 6) abortPath ("native call with stack arguments " + nm); iv[ni++] = v.u; }
    }
  Type *rt = in.I->getType ();
  // an exception that leaves a library function goes on in the interpreted code
  try {
  if (rt->isDoubleTy () || rt->isFloatTy ())
    {
      double d = ((double (*) (u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double)) addr) (iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], fv[0], fv[1], fv[2], fv[3], fv[4], fv[5], fv[6], fv[7]);
      ret = DV (d); if (rt->isFloatTy ()) ret.u &= 0xffffffff;
      return RET;
    }
  R2 r = ((R2 (*) (u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double)) addr) (iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], fv[0], fv[1], fv[2], fv[3], fv[4], fv[5], fv[6], fv[7]);
  if (rt->isStructTy ())
    {
      Val *a = new Val[2]; a[0] = CV (r.a); a[1] = CV (r.b); ret = Val{ 0, nullptr, a }; return RET;
    }
  ret = CV (rt->isVoidTy () ? 0 : zx (r.a, widthOf (rt)));
  return RET;
  }
  catch (std::exception &)
    {
      auto *p = new std::exception_ptr (std::current_exception ()); // kept alive for the rest of the path
      curExc = Exc{ *(u64 *) p, (u64) abi::__cxa_current_exception_type () };
      return UNWIND;
    }
}

// ---------------------------------------------------------------- typed load/store
static Val loadTy (u64 a, Type *t)
{
  if (t->isStructTy () || t->isArrayTy () || t->isVectorTy ())
    {
      unsigned n = t->isStructTy () ? t->getStructNumElements () : t->isArrayTy () ? t->getArrayNumElements () : cast<FixedVectorType> (t)->getNumElements ();
      Val *v = new Val[n + 1];
      for (unsigned i = 0; i < n; i++)
        {
          Type *et = t->isStructTy () ? t->getStructElementType (i) : t->isArrayTy () ? t->getArrayElementType () : cast<FixedVectorType> (t)->getElementType ();
          u64 off = t->isStructTy () ? (u64) DL->getStructLayout (cast<StructType> (t))->getElementOffset (i) : i * DL->getTypeAllocSize (et);
          v[i] = loadTy (a + off, et);
        }
      return Val{ 0, nullptr, v };
    }
  unsigned n = DL->getTypeStoreSize (t);
  if (n > 8) abortPath ("wide load");
  Val v = loadRaw (a, n, "read");
  if (t->isIntegerTy (1)) { if (v.s) return mkBool (boolOf (v)); return CV (v.u & 1); }
  if (t->isFloatTy () && v.s) abortPath ("symbolic float");
  return v;
}
static void storeTy (u64 a, const Val &v, Type *t)
{
  if (t->isStructTy () || t->isArrayTy () || t->isVectorTy ())
    {
      unsigned n = t->isStructTy () ? t->getStructNumElements () : t->isArrayTy () ? t->getArrayNumElements () : cast<FixedVectorType> (t)->getNumElements ();
      for (unsigned i = 0; i < n; i++)
        {
          Type *et = t->isStructTy () ? t->getStructElementType (i) : t->isArrayTy () ? t->getArrayElementType () : cast<FixedVectorType> (t)->getElementType ();
          u64 off = t->isStructTy () ? (u64) DL->getStructLayout (cast<StructType> (t))->getElementOffset (i) : i * DL->getTypeAllocSize (et);
          storeTy (a + off, v.agg ? v.agg[i] : CV (0), et);
        }
      return;
    }
  unsigned n = DL->getTypeStoreSize (t);
  if (n > 8) abortPath ("wide store");
  storeRaw (a, v, n, "write");
}

// ---------------------------------------------------------------- the interpreter
static Status run (Function *F, std::vector<Val> &args, Val &ret);
static Status doIntrinsic (Ins &in, std::vector<Val> &A, Val &ret)
{
  auto *ii = cast<IntrinsicInst> (in.I);
  unsigned w = in.w; Type *t = in.I->getType ();
  switch (ii->getIntrinsicID ())
    {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      memCopy (A[0].u, A[1].u, concretize (A[2], 64)); return RET;
    case Intrinsic::memset:
      { u64 n = concretize (A[2], 64); if (!n) return RET; ck (A[0].u, n, "write"); clearRange (A[0].u, n); memset ((void *) A[0].u, (int) concretize (A[1], 8), n); return RET; }
    case Intrinsic::fabs: ret = ffabs (A[0]); return RET;
    case Intrinsic::floor: ret = ffloor (A[0]); return RET;
    case Intrinsic::ceil: ret = fceil (A[0]); return RET;
    case Intrinsic::trunc: ret = ftrunc (A[0]); return RET;
    case Intrinsic::round: ret = fround (A[0]); return RET;
    case Intrinsic::sqrt: ret = fmath1 ("sqrt", A[0]); return RET;
    case Intrinsic::exp: ret = fmath1 ("exp", A[0]); return RET;
    case Intrinsic::log: ret = fmath1 ("log", A[0]); return RET;
    case Intrinsic::pow: ret = DV (pow (concD (A[0]), concD (A[1]))); return RET;
    case Intrinsic::powi: ret = DV (pow (concD (A[0]), (int) A[1].u)); return RET;
    case Intrinsic::rint: case Intrinsic::nearbyint: ret = DV (nearbyint (concD (A[0]))); return RET;
    case Intrinsic::copysign: ret = DV (copysign (concD (A[0]), concD (A[1]))); return RET;
    case Intrinsic::is_fpclass:
      {
        unsigned m = (unsigned) A[1].u; // 0,1 nan; 2 -inf 3 -norm 4 -sub 5 -0 6 +0 7 +sub 8 +norm 9 +inf
        if (A[0].s && ((m & 0x1f8) == 0 || (m & 0x1f8) == 0x1f8)) { ret = CV ((m & 0x1f8) != 0); return RET; }
        double d = concD (A[0]); bool ng = std::signbit (d); unsigned b;
        switch (std::fpclassify (d)) { case FP_NAN: b = 3; break; case FP_INFINITE: b = ng ? 4 : 512; break; case FP_NORMAL: b = ng ? 8 : 256; break; case FP_SUBNORMAL: b = ng ? 16 : 128; break; default: b = ng ? 32 : 64; }
        ret = CV ((m & b) != 0); return RET;
      }
    case Intrinsic::fmuladd: ret = fbin (F_ADD, fbin (F_MUL, A[0], A[1]), A[2]); return RET;
    case Intrinsic::minnum: ret = fminmax (true, A[0], A[1]); return RET;
    case Intrinsic::maxnum: ret = fminmax (false, A[0], A[1]); return RET;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
      {
        auto id = ii->getIntrinsicID ();
        CmpInst::Predicate p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
        Val c = icmpV (p, A[0], A[1], w);
        if (!c.s) { ret = c.u ? A[0] : A[1]; return RET; }
        bool mx = id == Intrinsic::smax; bool mnn = id == Intrinsic::smin;
        ret = selectV (c.s->e, A[0], A[1], w, false);
        if (ret.s && ret.s->k == K_INT && (mx || mnn))
          { IV x = ivS (A[0], w), y = ivS (A[1], w); if (mx) ret.s->lo = std::max (x.lo, y.lo); else ret.s->hi = std::min (x.hi, y.hi); }
        return RET;
      }
    case Intrinsic::abs:
      { Val n = ibin (Instruction::Sub, CV (0), A[0], w, nullptr); Val c = icmpV (CmpInst::ICMP_SLT, A[0], CV (0), w); ret = !c.s ? (c.u ? n : A[0]) : selectV (c.s->e, n, A[0], w, false); if (ret.s && ret.s->lo < 0 && ret.s->hi < imax (w)) ret.s->lo = 0; return RET; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::ssub_with_overflow:
      {
        unsigned ww = widthOf (t->getStructElementType (0));
        u64 x = concretize (A[0], ww), y = concretize (A[1], ww); Val *v = new Val[2];
        auto id = ii->getIntrinsicID (); i128 r; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::smul_with_overflow || id == Intrinsic::ssub_with_overflow;
        i128 p = sg ? (i128) sx (x, ww) : (i128) zx (x, ww), q = sg ? (i128) sx (y, ww) : (i128) zx (y, ww);
        if (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) { if (!sg && ww == 64) { unsigned __int128 ur = (unsigned __int128) x * y; v[0] = CV ((u64) ur); v[1] = CV ((ur >> 64) != 0); ret = Val{ 0, nullptr, v }; return RET; } r = p * q; }
        else if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) r = p + q; else r = p - q;
        v[0] = CV (zx ((u64) r, ww));
        v[1] = CV (sg ? (r < imin (ww) || r > imax (ww)) : (r < 0 || (r >> ww) != 0)); ret = Val{ 0, nullptr, v }; return RET;
      }
    case Intrinsic::usub_sat:
      { Val c = icmpV (CmpInst::ICMP_UGT, A[0], A[1], w); Val d = ibin (Instruction::Sub, A[0], A[1], w, nullptr); ret = !c.s ? (c.u ? d : CV (0)) : selectV (c.s->e, d, CV (0), w, false); return RET; }
    case Intrinsic::ctlz: { u64 x = zx (concretize (A[0], w), w); ret = CV (x ? __builtin_clzll (x) - (64 - w) : w); return RET; }
    case Intrinsic::cttz: { u64 x = zx (concretize (A[0], w), w); ret = CV (x ? __builtin_ctzll (x) : w); return RET; }
    case Intrinsic::ctpop: ret = CV (__builtin_popcountll (zx (concretize (A[0], w), w))); return RET;
    case Intrinsic::bswap: { u64 x = concretize (A[0], w); ret = CV (__builtin_bswap64 (x) >> (64 - w)); return RET; }
    case Intrinsic::fshl: { u64 x = concretize (A[0], w), y = concretize (A[1], w), k = concretize (A[2], w) % w; ret = CV (zx (k ? (x << k) | (zx (y, w) >> (w - k)) : x, w)); return RET; }
    case Intrinsic::fshr: { u64 x = concretize (A[0], w), y = concretize (A[1], w), k = concretize (A[2], w) % w; ret = CV (zx (k ? (x << (w - k)) | (zx (y, w) >> k) : y, w)); return RET; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = A[0]; return RET;
    case Intrinsic::objectsize: ret = CV (zx (~0ull, w)); return RET;
    case Intrinsic::is_constant: ret = CV (0); return RET;
    case Intrinsic::eh_typeid_for: ret = CV (typeId (A[0].u)); return RET;
    case Intrinsic::stacksave: ret = CV (stkTop); return RET;
    case Intrinsic::stackrestore: return RET;
    case Intrinsic::trap: fatalViolation ("terminate", "trap");
    case Intrinsic::prefetch: case Intrinsic::var_annotation: return RET;
    default: abortPath ("intrinsic " + ii->getCalledFunction ()->getName ().str ());
    }
}
static std::unordered_set<std::string> noThrowMap;
static Status callFn (Ins &in, std::vector<Val> &A, u64 addr, Val &ret)
{
  Function *f = in.callee;
  if (f && f->isIntrinsic ()) return doIntrinsic (in, A, ret);
  int ic = in.icpt;
  if (!f)
    {
      auto it = fnOf.find (addr);
      if (it != fnOf.end ()) { f = it->second; ic = icptOf (f); Ins tmp = in; tmp.callee = f; if (ic >= 0) return intercept (ic, tmp, A, ret); }
      else if (addr < 0x10000 || inArena (addr)) fatalViolation ("memory", "call through invalid pointer");
      else return nativeCall (in, addr, A, ret);
    }
  if (ic >= 0) return intercept (ic, in, A, ret);
  if (f->isDeclaration ())
    {
      u64 a = globalAddr (f);
      if (a >= FN0 && a < FN0 + (1ull << 32)) abortPath ("missing function " + demangle (f->getName ().str ()));
      Ins tmp = in; tmp.callee = f;
      return nativeCall (tmp, a, A, ret);
    }
  return run (f, A, ret);
}
static int depth = 0;
static Status run (Function *F, std::vector<Val> &args, Val &ret)
{
  Fn *f = translate (F);
  if (++depth > 4000) fatalViolation ("hang", "recursion too deep");
  std::vector<Val> R (f->nslots, CV (0));
  for (size_t i = 0; i < args.size () && i < F->arg_size (); i++) R[i] = args[i];
  u64 sp0 = stkTop;
  cstack.push_back ({ F, nullptr });
  size_t ci = cstack.size () - 1;
  int bb = 0, prev = -1;
  auto get = [&] (const Opnd &o) -> const Val & { return o.slot >= 0 ? R[o.slot] : o.c; };
  auto leave = [&] (Status s) {
    if (stkTop > sp0) { clearRange (sp0, stkTop - sp0); memset (&stateOf (sp0), ST_FREED, stkTop - sp0); stkTop = sp0; }
    cstack.pop_back (); depth--; return s;
  };
  std::vector<Val> tmp, A;
  for (;;)
    {
      Blk &B = f->b[bb];
      if (!B.seen) { B.seen = true; blockBits[B.gid] = 1; }
      if (!B.phis.empty () && prev >= 0)
        {
          auto &pv = B.phis[prev]; tmp.clear ();
          for (auto &c : pv) tmp.push_back (get (c.o));
          for (size_t i = 0; i < pv.size (); i++) R[pv[i].dst] = tmp[i];
        }
      int nxt = -1;
      steps += B.ins.size ();
      if (steps - stepFlush > 200000)
        {
          SH->steps += steps - stepFlush; stepFlush = steps;
          if (now () - tStart > optTime) { SH->outOfTime++; finishProcess (); }
          if (steps > optHang) fatalViolation ("hang", "step budget exhausted");
        }
      for (Ins &in : B.ins)
        {
          cstack[ci].second = &in;
          switch (in.op)
            {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
              if (in.w == 0 || in.w > 64) abortPath ("wide or vector integer op");
              R[in.dst] = ibin (in.op, get (in.o[0]), get (in.o[1]), in.w, in.I); break;
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
              {
                FOp op = in.op == Instruction::FAdd ? F_ADD : in.op == Instruction::FSub ? F_SUB : in.op == Instruction::FMul ? F_MUL : F_DIV;
                const Val &a = get (in.o[0]), &b = get (in.o[1]);
                if (in.I->getType ()->isFloatTy ())
                  {
                    if (a.s || b.s) abortPath ("symbolic float");
                    float x, y; memcpy (&x, &a.u, 4); memcpy (&y, &b.u, 4);
                    float r = op == F_ADD ? x + y : op == F_SUB ? x - y : op == F_MUL ? x * y : x / y; uint32_t u; memcpy (&u, &r, 4); R[in.dst] = CV (u); break;
                  }
                if (!in.I->getType ()->isDoubleTy ()) abortPath ("vector float op");
                R[in.dst] = fbin (op, a, b); break;
              }
            case Instruction::FRem: R[in.dst] = DV (fmod (concD (get (in.o[0])), concD (get (in.o[1])))); break;
            case Instruction::FNeg: R[in.dst] = fneg (get (in.o[0])); break;
            case Instruction::ICmp: if (in.w == 0 || in.w > 64) abortPath ("wide icmp"); R[in.dst] = icmpV (cast<CmpInst> (in.I)->getPredicate (), get (in.o[0]), get (in.o[1]), in.w); break;
            case Instruction::FCmp:
              {
                if (in.w == 32) { const Val &a = get (in.o[0]), &b = get (in.o[1]); float x, y; memcpy (&x, &a.u, 4); memcpy (&y, &b.u, 4); R[in.dst] = fcmpV (cast<CmpInst> (in.I)->getPredicate (), DV (x), DV (y)); break; }
                R[in.dst] = fcmpV (cast<CmpInst> (in.I)->getPredicate (), get (in.o[0]), get (in.o[1])); break;
              }
            case Instruction::Select:
              {
                Val c = get (in.o[0]);
                if (!c.s) { R[in.dst] = (c.u & 1) ? get (in.o[1]) : get (in.o[2]); break; }
                Val a = get (in.o[1]), b = get (in.o[2]);
                if (in.I->getType ()->isPointerTy () || a.agg || b.agg || in.w == 0 || in.w > 64) { R[in.dst] = branchOn (boolOf (c)) ? a : b; break; }
                R[in.dst] = selectV (boolOf (c), a, b, in.w, in.isF); break;
              }
            case Instruction::ZExt:
              {
                const Val &v = get (in.o[0]); unsigned sw = in.iw[0];
                if (in.w > 64) abortPath ("i128");
                if (!v.s) R[in.dst] = CV (zx (v.u, sw));
                else if (sw == 1) R[in.dst] = boolToInt (Val{ 0, mkBool (boolOf (v)).s, nullptr }, in.w, 1);
                else { Z3_ast b = v.s->b; IV x = ivU (v, sw); R[in.dst] = mkInt (x.e, x.lo, x.hi, in.w); if (R[in.dst].s) R[in.dst].s->b = b; }
                break;
              }
            case Instruction::SExt:
              {
                const Val &v = get (in.o[0]); unsigned sw = in.iw[0];
                if (in.w > 64) abortPath ("i128");
                if (!v.s) R[in.dst] = CV (zx ((u64) sx (v.u, sw), in.w));
                else if (sw == 1) R[in.dst] = boolToInt (Val{ 0, mkBool (boolOf (v)).s, nullptr }, in.w, -1);
                else { IV x = ivS (v, sw); Z3_ast b = v.s->b; R[in.dst] = mkInt (x.e, x.lo, x.hi, in.w); if (R[in.dst].s) R[in.dst].s->b = b; }
                break;
              }
            case Instruction::Trunc:
              {
                const Val &v = get (in.o[0]);
                if (in.iw[0] > 64) abortPath ("i128");
                if (!v.s) R[in.dst] = CV (zx (v.u, in.w));
                else if (in.w == 1) R[in.dst] = mkBool (boolOf (v));
                else { IV x = ivS (v, in.iw[0]); Z3_ast b = v.s->b; R[in.dst] = mkInt (x.e, x.lo, x.hi, in.w); if (R[in.dst].s) R[in.dst].s->b = b; }
                break;
              }
            case Instruction::SIToFP: case Instruction::UIToFP:
              {
                const Val &v = get (in.o[0]); unsigned sw = in.iw[0]; bool sg = in.op == Instruction::SIToFP;
                if (in.I->getType ()->isFloatTy ()) { if (v.s) abortPath ("symbolic float"); float r = sg ? (float) sx (v.u, sw) : (float) zx (v.u, sw); uint32_t u; memcpy (&u, &r, 4); R[in.dst] = CV (u); break; }
                if (!v.s) { R[in.dst] = DV (sg ? (double) sx (v.u, sw) : (double) zx (v.u, sw)); break; }
                IV x = sg ? ivS (v, sw) : ivU (v, sw);
                if (!(x.lo >= -M53 && x.hi <= M53)
                    && query (zor (Z3_mk_lt (Z, x.e, zi (-M53)), Z3_mk_gt (Z, x.e, zi (M53))), nullptr) == 0)
                  { x.lo = std::max (x.lo, (i128) -M53); x.hi = std::min (x.hi, (i128) M53); }
                if (x.lo >= -M53 && x.hi <= M53) R[in.dst] = mkDI (x.e, x.lo, x.hi, 0);
                else R[in.dst] = rounded ("i2f", Z3_mk_int2real (Z, x.e), (double) x.lo, (double) x.hi);
                break;
              }
            case Instruction::FPToSI: case Instruction::FPToUI:
              {
                if (in.iw[0] == 32) { float fl; memcpy (&fl, &get (in.o[0]).u, 4); R[in.dst] = fptoint (DV (fl), in.w); break; }
                R[in.dst] = fptoint (get (in.o[0]), in.w); break;
              }
            case Instruction::FPExt: { const Val &v = get (in.o[0]); if (v.s) { R[in.dst] = v; break; } float fl; memcpy (&fl, &v.u, 4); if (!in.I->getType ()->isDoubleTy ()) abortPath ("fpext to long double"); R[in.dst] = DV (fl); break; }
            case Instruction::FPTrunc: { if (!in.I->getType ()->isFloatTy ()) abortPath ("fptrunc"); float fl = (float) concD (get (in.o[0])); uint32_t u; memcpy (&u, &fl, 4); R[in.dst] = CV (u); break; }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::AddrSpaceCast:
              R[in.dst] = get (in.o[0]); break;
            case Instruction::Alloca:
              {
                auto *ai = cast<AllocaInst> (in.I);
                u64 n = DL->getTypeAllocSize (ai->getAllocatedType ()); Val c = get (in.o[0]); n *= concretize (c, 64);
                u64 al = std::max<u64> (16, ai->getAlign ().value ());
                u64 a = (stkTop + 16 + al - 1) / al * al; 
                memset (&stateOf (stkTop), 0, a - stkTop);
                stkTop = a + n;
                u64 e = (stkTop + 15) & ~15ull; memset (&stateOf (stkTop), 0, e - stkTop); stkTop = e;
                if (stkTop >= STK0 + STKSZ - 4096) fatalViolation ("hang", "stack exhausted");
                memset ((void *) a, 0xCD, n); markAlloc (a, n); R[in.dst] = CV (a); break;
              }
            case Instruction::Load:
              {
                Val p = get (in.o[0]); if (p.s) p = CV (concretize (p, 64));
                R[in.dst] = loadTy (p.u, in.I->getType ()); break;
              }
            case Instruction::Store:
              {
                Val p = get (in.o[1]); if (p.s) p = CV (concretize (p, 64));
                storeTy (p.u, get (in.o[0]), cast<StoreInst> (in.I)->getValueOperand ()->getType ()); break;
              }
            case Instruction::GetElementPtr:
              {
                Val p = get (in.o[0]); u64 a = p.s ? concretize (p, 64) : p.u; a += in.off;
                for (size_t k = 0; k < in.idx.size (); k++)
                  { Val x = get (in.o[in.idx[k].first]); u64 c = x.s ? concretize (x, in.iw[k]) : x.u; a += (u64) (sx (c, in.iw[k]) * in.idx[k].second); }
                R[in.dst] = CV (a); break;
              }
            case Instruction::ExtractValue:
              {
                Val v = get (in.o[0]); for (unsigned i : cast<ExtractValueInst> (in.I)->indices ()) v = v.agg ? v.agg[i] : CV (0);
                R[in.dst] = v; break;
              }
            case Instruction::InsertValue:
              {
                auto *iv = cast<InsertValueInst> (in.I); Val v = get (in.o[0]), x = get (in.o[1]);
                std::function<Val (Val, Type *, ArrayRef<unsigned>)> ins = [&] (Val b, Type *t, ArrayRef<unsigned> ix) -> Val {
                  if (ix.empty ()) return x;
                  unsigned n = t->isStructTy () ? t->getStructNumElements () : t->getArrayNumElements ();
                  Val *a = new Val[n + 1]; for (unsigned i = 0; i < n; i++) a[i] = b.agg ? b.agg[i] : CV (0);
                  a[ix[0]] = ins (a[ix[0]], t->isStructTy () ? t->getStructElementType (ix[0]) : t->getArrayElementType (), ix.slice (1));
                  return Val{ 0, nullptr, a };
                };
                R[in.dst] = ins (v, in.I->getType (), iv->getIndices ()); break;
              }
            case Instruction::ExtractElement: { Val v = get (in.o[0]); R[in.dst] = v.agg[concretize (get (in.o[1]), 32)]; break; }
            case Instruction::InsertElement:
              {
                Val v = get (in.o[0]); unsigned n = cast<FixedVectorType> (in.I->getType ())->getNumElements ();
                Val *a = new Val[n + 1]; for (unsigned i = 0; i < n; i++) a[i] = v.agg ? v.agg[i] : CV (0);
                a[concretize (get (in.o[2]), 32)] = get (in.o[1]); R[in.dst] = Val{ 0, nullptr, a }; break;
              }
            case Instruction::ShuffleVector:
              {
                auto *sv = cast<ShuffleVectorInst> (in.I); Val x = get (in.o[0]), y = get (in.o[1]);
                int n0 = cast<FixedVectorType> (sv->getOperand (0)->getType ())->getNumElements ();
                auto mk = sv->getShuffleMask (); Val *a = new Val[mk.size () + 1];
                for (size_t i = 0; i < mk.size (); i++) a[i] = mk[i] < 0 ? CV (0) : mk[i] < n0 ? (x.agg ? x.agg[mk[i]] : CV (0)) : (y.agg ? y.agg[mk[i] - n0] : CV (0));
                R[in.dst] = Val{ 0, nullptr, a }; break;
              }
            case Instruction::AtomicRMW:
              {
                auto *rm = cast<AtomicRMWInst> (in.I); u64 p = get (in.o[0]).u; Val old = loadTy (p, rm->getType ()), x = get (in.o[1]); Val nv;
                switch (rm->getOperation ()) { case AtomicRMWInst::Add: nv = ibin (Instruction::Add, old, x, in.w, nullptr); break; case AtomicRMWInst::Sub: nv = ibin (Instruction::Sub, old, x, in.w, nullptr); break; case AtomicRMWInst::Xchg: nv = x; break; default: abortPath ("atomicrmw"); }
                storeTy (p, nv, rm->getType ()); R[in.dst] = old; break;
              }
            case Instruction::Fence: break;
            case Instruction::Br:
              if (in.o.empty ()) { nxt = in.s0; break; }
              { Val c = get (in.o[0]); bool t = c.s ? branchOn (boolOf (c)) : (c.u & 1); nxt = t ? in.s0 : in.s1; break; }
            case Instruction::Switch:
              {
                Val c = get (in.o[0]); nxt = in.s0;
                for (auto &k : in.cases)
                  { Val e = icmpV (CmpInst::ICMP_EQ, c, CV (zx ((u64) (int64_t) k.first, in.w)), in.w); bool t = e.s ? branchOn (e.s->e) : e.u; if (t) { nxt = k.second; break; } }
                break;
              }
            case Instruction::Ret:
              ret = in.o.empty () ? CV (0) : get (in.o[0]);
              return leave (RET);
            case Instruction::Call: case Instruction::Invoke:
              {
                A.clear (); for (size_t i = 0; i + 1 < in.o.size (); i++) A.push_back (get (in.o[i]));
                u64 addr = 0;
                if (!in.callee) { Val p = get (in.o.back ()); addr = p.s ? concretize (p, 64) : p.u; }
                Val r = CV (0);
                Status st = callFn (in, A, addr, r);
                if (st == UNWIND)
                  {
                    if (in.op == Instruction::Call) return leave (UNWIND);
                    nxt = in.s1; break;
                  }
                if (in.dst >= 0) R[in.dst] = r;
                if (in.op == Instruction::Invoke) nxt = in.s0;
                break;
              }
            case Instruction::LandingPad:
              {
                auto *lp = cast<LandingPadInst> (in.I); int sel = 0; bool hit = false;
                for (unsigned i = 0; i < lp->getNumClauses () && !hit; i++)
                  if (lp->isCatch (i))
                    {
                      u64 ti = constVal (cast<Constant> (lp->getClause (i)->stripPointerCasts ())).u;
                      if (!ti || tiMatch (curExc.ti, ti)) { sel = typeId (ti); hit = true; }
                    }
                  else { auto *ca = lp->getClause (i); if (cast<ArrayType> (ca->getType ())->getNumElements () == 0) fatalViolation ("terminate", "exception leaves a noexcept region"); }
                if (!hit && !lp->isCleanup ()) return leave (UNWIND);
                Val *a = new Val[2]; a[0] = CV (curExc.obj); a[1] = CV (sel);
                R[in.dst] = Val{ 0, nullptr, a }; break;
              }
            case Instruction::Resume: return leave (UNWIND);
            case Instruction::Unreachable: fatalViolation ("unreachable", "undefined behaviour: unreachable executed");
            default: abortPath (std::string ("opcode ") + in.I->getOpcodeName ());
            }
          if (nxt >= 0) break;
        }
      prev = bb; bb = nxt;
    }
}

// ---------------------------------------------------------------- driver
static void segv (int, siginfo_t *si, void *)
{
  static int n = 0; if (n++) _exit (99);
  char b[64]; if (si->si_signo == SIGABRT) snprintf (b, sizeof b, "abort in a library call"); else snprintf (b, sizeof b, "segv at %p", si->si_addr);
  fatalViolation ("memory", b);
}
static void z3err (Z3_context c, Z3_error_code e)
{ abortPath (std::string ("z3 error: ") + Z3_get_error_msg (c, e)); }
static void mainBody ()
{
  Z3_config cfg = Z3_mk_config ();
  Z3_set_param_value (cfg, "model", "true");
  Z = Z3_mk_context (cfg);
  Z3_set_error_handler (Z, z3err);
  IntS = Z3_mk_int_sort (Z); RealS = Z3_mk_real_sort (Z); BoolS = Z3_mk_bool_sort (Z);
  S = Z3_mk_simple_solver (Z); Z3_solver_inc_ref (Z, S);
  Z3_params ps = Z3_mk_params (Z); Z3_params_inc_ref (Z, ps);
  Z3_params_set_uint (Z, ps, Z3_mk_string_symbol (Z, "rlimit"), optRlimit);
  Z3_params_set_uint (Z, ps, Z3_mk_string_symbol (Z, "random_seed"), getenv ("VERIF_SEED") ? atoi (getenv ("VERIF_SEED")) : 1);
  Z3_solver_set_params (Z, S, ps);
  vtSI = (u64) dlsym (RTLD_DEFAULT, "_ZTVN10__cxxabiv120__si_class_type_infoE") + 16;
  vtVMI = (u64) dlsym (RTLD_DEFAULT, "_ZTVN10__cxxabiv121__vmi_class_type_infoE") + 16;
  for (auto &g : M->globals ()) globalAddr (&g);
  for (auto &fu : M->functions ()) if (!fu.isIntrinsic ()) globalAddr (&fu);
  for (size_t i = 0; i < pendingInit.size (); i++) if (pendingInit[i]->hasInitializer () && pendingInit[i]->getName () != "llvm.global_ctors") initMem (gaddr[pendingInit[i]], pendingInit[i]->getInitializer ());
  std::vector<Val> none; Val r;
  // static constructors
  if (auto *gc = M->getGlobalVariable ("llvm.global_ctors"))
    if (auto *ca = dyn_cast<ConstantArray> (gc->getInitializer ()))
      {
        std::vector<std::pair<u64, Function *>> v;
        for (auto &op : ca->operands ())
          { auto *cs = cast<ConstantStruct> (op); v.push_back ({ cast<ConstantInt> (cs->getOperand (0))->getZExtValue (), dyn_cast<Function> (cs->getOperand (1)->stripPointerCasts ()) }); }
        std::stable_sort (v.begin (), v.end (), [] (auto &a, auto &b) { return a.first < b.first; });
        for (auto &p : v) if (p.second) { none.clear (); run (p.second, none, r); }
      }
  Function *e = M->getFunction (optEntry);
  if (!e || e->isDeclaration ()) { fprintf (stderr, "no entry %s\n", optEntry.c_str ()); exit (2); }
  pathStart = now (); steps = 0; stepFlush = 0;
  none.clear ();
  Status st = run (e, none, r);
  SH->steps += steps - stepFlush;
  if (st == UNWIND)
    {
      std::string tn = demangle (*(const char **) (curExc.ti + 8));
      const char *tnm = *(const char **) (curExc.ti + 8);
      needModel ();
      reportViolation ("exception", curModel, std::string ("uncaught exception of type ") + tnm);
      SH->paths++; finishProcess ();
    }
  pathDone ();
}
int main (int argc, char **argv)
{
  std::string file;
  for (int i = 1; i < argc; i++)
    {
      std::string a = argv[i]; auto val = [&] { return a.substr (a.find ('=') + 1); };
      if (a.rfind ("--out=", 0) == 0) optOut = val ();
      else if (a.rfind ("--entry=", 0) == 0) optEntry = val ();
      else if (a.rfind ("--time=", 0) == 0) optTime = atof (val ().c_str ());
      else if (a.rfind ("--paths=", 0) == 0) optMaxPaths = atol (val ().c_str ());
      else if (a.rfind ("--jobs=", 0) == 0) optJobs = atoi (val ().c_str ());
      else if (a.rfind ("--tier=", 0) == 0) optTier = atoi (val ().c_str ());
      else if (a.rfind ("--samples=", 0) == 0) optSamples = atol (val ().c_str ());
      else if (a.rfind ("--dump=", 0) == 0) optDump = atol (val ().c_str ());
      else if (a.rfind ("--steps=", 0) == 0) optHang = atof (val ().c_str ());
      else if (a.rfind ("--land=", 0) == 0) optLand = atoi (val ().c_str ());
      else if (a.rfind ("--rlimit=", 0) == 0) optRlimit = atol (val ().c_str ());
      else file = a;
    }
  rlimit rl; getrlimit (RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512ul << 20)) { rl.rlim_cur = 512ul << 20; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_max < rl.rlim_cur) rl.rlim_cur = rl.rlim_max; if (!setrlimit (RLIMIT_STACK, &rl) && !getenv ("VPSYM_RE")) { setenv ("VPSYM_RE", "1", 1); execv ("/proc/self/exe", argv); } }
  tStart = now ();
  SH = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (SH) Shared (); SH->running = 1;
  arenaInit (); initIcpt ();
  SMDiagnostic err;
  M = parseIRFile (file, err, Ctx);
  if (!M) { err.print ("vpsym", errs ()); return 2; }
  DL = &M->getDataLayout ();
  for (auto &fu : *M) for (auto &b : fu) bbId[&b] = nBlocks++;
  blockBits = (uint8_t *) mmap (nullptr, nBlocks + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int dn_ = open ("/dev/null", O_WRONLY);
  int so = dup (1);
  fflush (stdout);
  pid_t p = fork ();
  if (p == 0)
    {
      dup2 (dn_, 1);
      stack_t ss; ss.ss_sp = malloc (1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack (&ss, nullptr);
      struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction (SIGSEGV, &sa, nullptr); sigaction (SIGBUS, &sa, nullptr); sigaction (SIGABRT, &sa, nullptr);
      signal (SIGALRM, onAlarm);
      mainBody (); _exit (0);
    }
  int st; waitpid (p, &st, 0);
  if (WIFSIGNALED (st) || WEXITSTATUS (st)) { SH->aborted++; appendFile ("errors.txt", "engine process failed: " + std::to_string (st) + "\n"); }
  dup2 (so, 1);
  // coverage by source function (inlined ones included)
  std::map<std::string, std::set<unsigned>> lines; std::set<std::string> funcs;
  for (auto &fu : *M)
    for (auto &b : fu)
      if (blockBits[bbId[&b]])
        for (auto &i : b)
          {
            const DebugLoc &l = i.getDebugLoc (); DILocation *d = l.get ();
            while (d)
              {
                DISubprogram *sp = d->getScope ()->getSubprogram ();
                std::string fn = d->getFilename ().str ();
                if (fn.find ("/repo/") != std::string::npos || fn.rfind ("/verif", 0) == std::string::npos)
                  if (fn.find ("/repo/") == 0)
                    {
                      std::string n = sp->getLinkageName ().str (); n = n.empty () ? sp->getName ().str () : demangle (n);
                      funcs.insert (n); lines[fn].insert (d->getLine ());
                    }
                d = d->getInlinedAt ();
              }
          }
  FILE *o = fopen ((optOut + "/stats.json").c_str (), "w");
  fprintf (o, "{\"paths\":%ld,\"infeasible\":%ld,\"aborted\":%ld,\"forks\":%ld,\"branches\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"steps\":%ld,\"asserts\":%ld,\"asserts_constant\":%ld,\"asserts_solver\":%ld,\"violations\":%ld,\"inconclusive\":%ld,\"solver_s\":%.3f,\"out_of_time\":%ld,\"max_depth\":%ld,\"slow_queries\":%ld,\"rounded_ops\":%ld,\"wall_s\":%.2f,\n\"functions\":[",
           SH->paths.load (), SH->infeasible.load (), SH->aborted.load (), SH->forks.load (), SH->branches.load (), SH->queries.load (), SH->qsat.load (), SH->qunsat.load (), SH->qunk.load (), SH->steps.load (), SH->asserts.load (), SH->assertsConcrete.load (), SH->assertsSolver.load (), SH->violations.load (), SH->inconclusive.load (), SH->solverNs.load () * 1e-9, SH->outOfTime.load (), SH->maxDepth.load (), SH->bigQ.load (), SH->rounded.load (), now () - tStart);
  bool first = true;
  for (auto &s : funcs) { std::string q; for (char c : s) { if (c == '"' || c == '\\') q += '\\'; q += c; } fprintf (o, "%s\"%s\"", first ? "" : ",", q.c_str ()); first = false; }
  fprintf (o, "],\n\"lines\":{");
  first = true;
  for (auto &p2 : lines) { fprintf (o, "%s\"%s\":%zu", first ? "" : ",", p2.first.c_str (), p2.second.size ()); first = false; }
  fprintf (o, "}}\n"); fclose (o);
  printf ("paths=%ld infeasible=%ld aborted=%ld queries=%ld asserts=%ld(solver %ld) violations=%ld unknown=%ld timeout=%ld solver=%.1fs wall=%.1fs\n", SH->paths.load (), SH->infeasible.load (), SH->aborted.load (), SH->queries.load (), SH->asserts.load (), SH->assertsSolver.load (), SH->violations.load (), SH->qunk.load (), SH->outOfTime.load (), SH->solverNs * 1e-9, now () - tStart);
  return 0;
}
