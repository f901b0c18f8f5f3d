// ksym: symbolic execution of LLVM IR over z3.
#include "engine.h"
#include <llvm-c/IRReader.h>
extern "C" { typedef struct LLVMOpaqueTargetData* LLVMTargetDataRef; LLVMTargetDataRef LLVMGetModuleDataLayout(LLVMModuleRef); unsigned long long LLVMSizeOfTypeInBits(LLVMTargetDataRef, LLVMTypeRef); unsigned long long LLVMStoreSizeOfType(LLVMTargetDataRef, LLVMTypeRef); unsigned long long LLVMABISizeOfType(LLVMTargetDataRef, LLVMTypeRef); unsigned long long LLVMOffsetOfElement(LLVMTargetDataRef, LLVMTypeRef, unsigned); }
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <pthread.h>
extern "C" LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef, unsigned);
extern "C" LLVMValueRef LLVMGetAggregateElement(LLVMValueRef, unsigned);

static const u64 BASE = 0x10000;
static LLVMContextRef LC; static LLVMModuleRef LM; static LLVMTargetDataRef DL;
static std::vector<LLVMValueRef> gval; static std::unordered_map<LLVMValueRef, u32> gid; // objects for globals
static std::vector<Obj*> gobj; static std::vector<Fn*> gfn; static u32 heapBase;
static std::unordered_map<LLVMValueRef, Fn*> fns; static std::map<std::string, Fn*> fnByName;
static std::vector<State*> work;
// options
static u64 optMaxSteps = 200000000ull, optAlloc = 64ull << 20, optMaxPaths = 5000000; static int optJobs = 1; static u64 optStopViol = ~0ull; static bool optStdout = false, optFmtStub = false, optPanicOk = false, optShortReads = false, optTrace = false, optCheckObs = true;
static double optTime = 800; static u64 optSeed = 1; static int optSamples = 24; static std::string optOut; static u64 optMaxViol = 3;
static u64 optHeapPeak = 0; static std::string optDumpQ;
static double t0clock;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Shared { volatile double tviol; volatile u64 paths, active, done, stop, incomplete, nviol, samples; volatile u64 cover[256]; volatile u64 ends[16]; };
static Shared* SH;
static double optGrace = 20; // seconds of further search after the first violation
static inline bool timeUp();
static u64 stSteps, stForks; static int outFd = -1;
static std::set<std::string> stFns; 

enum EndKind { E_OK, E_PANIC, E_ASSERT, E_MEM, E_ALLOC, E_EXIT, E_INFEASIBLE, E_INCOMPLETE, E_UNSUP, E_ABORT, E_UNREACH };
static const char* endNames[] = {"ok","panic","assert","memory","alloc","exit","infeasible","incomplete","unsupported","abort","unreachable"};
struct PathEnd { EndKind k; std::string msg; };
[[noreturn]] static void endPath(EndKind k, const std::string& m = "") { throw PathEnd{k, m}; }

// ---------- types ----------
static std::unordered_map<LLVMTypeRef, TypeInfo*> tinfo;
static void flat(LLVMTypeRef t, u64 off, std::vector<Leaf>& o) {
  switch (LLVMGetTypeKind(t)) {
    case LLVMIntegerTypeKind: o.push_back({(u16)LLVMGetIntTypeWidth(t), (u32)off}); break;
    case LLVMPointerTypeKind: o.push_back({64, (u32)off}); break;
    case LLVMFloatTypeKind: o.push_back({32, (u32)off}); break;
    case LLVMDoubleTypeKind: o.push_back({64, (u32)off}); break;
    case LLVMHalfTypeKind: o.push_back({16, (u32)off}); break;
    case LLVMFP128TypeKind: o.push_back({128, (u32)off}); break;
    case LLVMStructTypeKind: { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) flat(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(DL, t, i), o); break; }
    case LLVMArrayTypeKind: { LLVMTypeRef e = LLVMGetElementType(t); u64 n = LLVMGetArrayLength2(t), es = LLVMABISizeOfType(DL, e); for (u64 i = 0; i < n; i++) flat(e, off + i * es, o); break; }
    case LLVMVectorTypeKind: { LLVMTypeRef e = LLVMGetElementType(t); unsigned n = LLVMGetVectorSize(t); u64 es = (LLVMSizeOfTypeInBits(DL, e) + 7) / 8; for (unsigned i = 0; i < n; i++) flat(e, off + i * es, o); break; }
    case LLVMVoidTypeKind: case LLVMMetadataTypeKind: case LLVMTokenTypeKind: case LLVMLabelTypeKind: break;
    default: fprintf(stderr, "unsupported type kind %d\n", LLVMGetTypeKind(t)); break;
  }
}
static const TypeInfo* ty(LLVMTypeRef t) {
  auto& p = tinfo[t]; if (p) return p; p = new TypeInfo(); 
  auto k = LLVMGetTypeKind(t); p->size = (k == LLVMVoidTypeKind || k == LLVMMetadataTypeKind || k == LLVMTokenTypeKind || k == LLVMFunctionTypeKind|| k == LLVMLabelTypeKind) ? 0 : LLVMABISizeOfType(DL, t);
  if (p->size < (1u << 20) || k != LLVMArrayTypeKind) flat(t, 0, p->leaves); return p;
}
// ---------- constants ----------
static u64 gaddr(LLVMValueRef v) {
  auto it = gid.find(v); if (it == gid.end()) { fprintf(stderr, "unknown global\n"); exit(3); }
  if (LLVMGetLinkage(v) == LLVMExternalWeakLinkage) return 0;
  return ((u64)it->second << 32) + BASE;
}
static u128 constInt(LLVMValueRef v) {
  unsigned w = LLVMGetIntTypeWidth(LLVMTypeOf(v)); if (w <= 64) return LLVMConstIntGetZExtValue(v) & mask64(w);
  char* s = LLVMPrintValueToString(v); char* p = strchr(s, ' '); u128 r = 0; bool neg = false; if (p) { p++; if (*p == '-') { neg = true; p++; } while (*p >= '0' && *p <= '9') r = r * 10 + (*p++ - '0'); }
  LLVMDisposeMessage(s); if (neg) r = 0 - r; return r & maskw(w);
}
static u64 constGep(LLVMValueRef v);
static u64 constScalar(LLVMValueRef v) { // pointer or int constant expr, <=64 bits
  if (LLVMIsAConstantInt(v)) return (u64)constInt(v);
  if (LLVMIsAConstantPointerNull(v) || LLVMIsUndef(v) || LLVMIsPoison(v)) return 0;
  if (LLVMIsAGlobalAlias(v)) return constScalar(LLVMAliasGetAliasee(v));
  if (LLVMIsAGlobalValue(v)) return gaddr(v);
  if (LLVMIsAConstantFP(v)) { LLVMBool l; double d = LLVMConstRealGetDouble(v, &l); if (LLVMGetTypeKind(LLVMTypeOf(v)) == LLVMFloatTypeKind) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
  if (LLVMIsAConstantExpr(v)) switch (LLVMGetConstOpcode(v)) {
    case LLVMGetElementPtr: return constGep(v);
    case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMAddrSpaceCast: return constScalar(LLVMGetOperand(v, 0));
    case LLVMTrunc: return constScalar(LLVMGetOperand(v, 0)) & mask64(LLVMGetIntTypeWidth(LLVMTypeOf(v)));
    case LLVMAdd: return constScalar(LLVMGetOperand(v, 0)) + constScalar(LLVMGetOperand(v, 1));
    case LLVMSub: return constScalar(LLVMGetOperand(v, 0)) - constScalar(LLVMGetOperand(v, 1));
    default: break;
  }
  if (LLVMIsAConstantAggregateZero(v)) return 0;
  char* s = LLVMPrintValueToString(v); fprintf(stderr, "unsupported constant %s\n", s); exit(3);
}
static u64 constGep(LLVMValueRef v) {
  i64 r = (i64)constScalar(LLVMGetOperand(v, 0)); LLVMTypeRef t = LLVMGetGEPSourceElementType(v); unsigned n = LLVMGetNumOperands(v);
  for (unsigned i = 1; i < n; i++) {
    LLVMValueRef ix = LLVMGetOperand(v, i); i64 k = LLVMIsAConstantInt(ix) ? (i64)sext128(constInt(ix), LLVMGetIntTypeWidth(LLVMTypeOf(ix))) : (i64)constScalar(ix);
    if (i == 1) { r += k * (i64)LLVMABISizeOfType(DL, t); continue; }
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { r += LLVMOffsetOfElement(DL, t, (unsigned)k); t = LLVMStructGetTypeAtIndex(t, (unsigned)k); }
    else { t = LLVMGetElementType(t); r += k * (i64)LLVMABISizeOfType(DL, t); }
  }
  return (u64)r;
}
static void constLeaves(LLVMValueRef v, std::vector<V>& o) {
  LLVMTypeRef t = LLVMTypeOf(v); const TypeInfo* ti = ty(t);
  if (LLVMIsUndef(v) || LLVMIsPoison(v) || LLVMIsAConstantAggregateZero(v)) { for (auto& l : ti->leaves) o.push_back(l.w > 64 ? V{mkConst(0, l.w), 0} : cv(0)); return; }
  auto k = LLVMGetTypeKind(t);
  if (k == LLVMStructTypeKind || k == LLVMArrayTypeKind || k == LLVMVectorTypeKind) {
    u64 n = k == LLVMStructTypeKind ? LLVMCountStructElementTypes(t) : k == LLVMArrayTypeKind ? LLVMGetArrayLength2(t) : LLVMGetVectorSize(t);
    if (k == LLVMVectorTypeKind && LLVMIsAConstantInt(v)) { V x = cv((u64)constInt(v)); for (u64 i = 0; i < n; i++) o.push_back(x); return; }
    for (u64 i = 0; i < n; i++) constLeaves(LLVMGetAggregateElement(v, (unsigned)i), o);
    return;
  }
  if (k == LLVMIntegerTypeKind && LLVMGetIntTypeWidth(t) > 64) { o.push_back(V{mkConst(constInt(v), LLVMGetIntTypeWidth(t)), 0}); return; }
  if (k == LLVMMetadataTypeKind || k == LLVMTokenTypeKind) return;
  o.push_back(cv(constScalar(v)));
}
static void writeConst(Obj* ob, u64 off, LLVMValueRef v) {
  LLVMTypeRef t = LLVMTypeOf(v); auto k = LLVMGetTypeKind(t);
  if (LLVMIsUndef(v) || LLVMIsPoison(v) || LLVMIsAConstantAggregateZero(v) || LLVMIsAConstantPointerNull(v)) return;
  if (LLVMIsAConstantDataSequential(v) && k == LLVMArrayTypeKind && LLVMGetTypeKind(LLVMGetElementType(t)) == LLVMIntegerTypeKind && LLVMGetIntTypeWidth(LLVMGetElementType(t)) == 8) {
    size_t n; const char* s = LLVMGetAsString(v, &n); memcpy(&ob->d[off], s, n); return; }
  if (k == LLVMStructTypeKind) { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) writeConst(ob, off + LLVMOffsetOfElement(DL, t, i), LLVMGetAggregateElement(v, i)); return; }
  if (k == LLVMArrayTypeKind || k == LLVMVectorTypeKind) { u64 n = k == LLVMArrayTypeKind ? LLVMGetArrayLength2(t) : LLVMGetVectorSize(t); u64 es = LLVMABISizeOfType(DL, LLVMGetElementType(t)); for (u64 i = 0; i < n; i++) writeConst(ob, off + i * es, LLVMGetAggregateElement(v, (unsigned)i)); return; }
  u64 sz = LLVMStoreSizeOfType(DL, t);
  if (k == LLVMIntegerTypeKind && LLVMGetIntTypeWidth(t) > 64) { u128 x = constInt(v); memcpy(&ob->d[off], &x, sz); return; }
  u64 x = constScalar(v); memcpy(&ob->d[off], &x, sz);
}
static Obj* initGlobal(u32 id) {
  Obj* o = gobj[id]; if (o) return o; o = new Obj(); o->rc = 1; LLVMValueRef v = gval[id];
  if (LLVMIsAFunction(v)) { o->size = 0; o->kind = 3; gobj[id] = o; return o; }
  LLVMTypeRef t = LLVMGlobalGetValueType(v); o->size = LLVMABISizeOfType(DL, t); o->d.assign(o->size, 0); o->kind = 2; o->ro = LLVMIsGlobalConstant(v); gobj[id] = o;
  if (LLVMValueRef in = LLVMGetInitializer(v)) writeConst(o, 0, in);
  else if (o->size == 0) { o->size = 64; o->d.assign(64, 0); }
  return o;
}
// ---------- decode ----------
static Handler findHandler(Fn* f);
static Fn* getFn(LLVMValueRef v) {
  auto& f = fns[v]; if (f) return f; f = new Fn(); size_t n; const char* s = LLVMGetValueName2(v, &n); f->name.assign(s, n); f->ref = v; f->decl = LLVMIsDeclaration(v);
  static unsigned kNoRet = LLVMGetEnumAttributeKindForName("noreturn", 8);
  f->noret = LLVMGetEnumAttributeAtIndex(v, LLVMAttributeFunctionIndex, kNoRet) != nullptr;
  f->mine = f->name.find("6ksusig") != std::string::npos;
  if (LLVMCountParams(v)) f->ptr0 = LLVMGetTypeKind(LLVMTypeOf(LLVMGetParam(v, 0))) == LLVMPointerTypeKind;
  f->h = findHandler(f); return f;
}
static void decode(Fn* f) {
  f->decoded = true; std::unordered_map<LLVMValueRef, int> slot; std::unordered_map<LLVMBasicBlockRef, int> bbi; u32 ns = 0;
  unsigned np = LLVMCountParams(f->ref);
  for (unsigned i = 0; i < np; i++) { LLVMValueRef p = LLVMGetParam(f->ref, i); slot[p] = ns; ns += ty(LLVMTypeOf(p))->leaves.size(); }
  f->nargs = ns; int nb = 0;
  for (auto b = LLVMGetFirstBasicBlock(f->ref); b; b = LLVMGetNextBasicBlock(b)) { bbi[b] = nb++;
    for (auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) { size_t n = ty(LLVMTypeOf(i))->leaves.size(); if (n) { slot[i] = ns; ns += n; } } }
  f->nslots = ns; f->bbs.resize(nb);
  auto opnd = [&](LLVMValueRef v) -> Opnd {
    Opnd o{-1, 0, nullptr}; auto it = slot.find(v); if (it != slot.end()) { o.slot = it->second; o.n = ty(LLVMTypeOf(v))->leaves.size(); return o; }
    auto k = LLVMGetTypeKind(LLVMTypeOf(v)); if (k == LLVMMetadataTypeKind || k == LLVMTokenTypeKind || k == LLVMLabelTypeKind) return o;
    auto* vs = new std::vector<V>(); constLeaves(v, *vs); o.n = vs->size(); o.k = vs->data(); return o; };
  for (auto b = LLVMGetFirstBasicBlock(f->ref); b; b = LLVMGetNextBasicBlock(b)) {
    Block& B = f->bbs[bbi[b]];
    for (auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      Inst I; I.ref = i; LLVMTypeRef T = LLVMTypeOf(i); I.nd = ty(T)->leaves.size(); if (I.nd) { I.dst = slot[i]; I.w = ty(T)->leaves[0].w; }
      LLVMOpcode oc = LLVMGetInstructionOpcode(i); auto ops = [&](unsigned n) { for (unsigned k = 0; k < n; k++) I.ops.push_back(opnd(LLVMGetOperand(i, k))); };
      auto bin = [&](Op o) { I.op = I_BIN; I.sub = o; ops(2); }; auto cast = [&](Cast c) { I.op = I_CAST; I.sub = c; ops(1); auto& l = ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->leaves; I.w2 = l.empty() ? 0 : l[0].w; };
      switch (oc) {
        case LLVMAdd: bin(ADD); break; case LLVMSub: bin(SUB); break; case LLVMMul: bin(MUL); break; case LLVMUDiv: bin(UDIV); break; case LLVMSDiv: bin(SDIV); break;
        case LLVMURem: bin(UREM); break; case LLVMSRem: bin(SREM); break; case LLVMAnd: bin(AND); break; case LLVMOr: bin(OR); break; case LLVMXor: bin(XOR); break;
        case LLVMShl: bin(SHL); break; case LLVMLShr: bin(LSHR); break; case LLVMAShr: bin(ASHR); break;
        case LLVMTrunc: cast(C_TRUNC); break; case LLVMZExt: cast(C_ZEXT); break; case LLVMSExt: cast(C_SEXT); break;
        case LLVMPtrToInt: case LLVMIntToPtr: { cast(C_ZEXT); if (I.w < I.w2) I.sub = C_TRUNC; break; }
        case LLVMBitCast: case LLVMAddrSpaceCast: cast(C_BIT); I.ti = ty(T); break;
        case LLVMICmp: I.op = I_CMP; I.sub = LLVMGetICmpPredicate(i); ops(2); I.w2 = ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->leaves[0].w; break;
        case LLVMAlloca: { I.op = I_ALLOCA; I.sz = LLVMABISizeOfType(DL, LLVMGetAllocatedType(i)); ops(1); break; }
        case LLVMLoad: I.op = I_LOAD; ops(1); I.ti = ty(T); break;
        case LLVMStore: I.op = I_STORE; ops(2); I.ti = ty(LLVMTypeOf(LLVMGetOperand(i, 0))); break;
        case LLVMGetElementPtr: {
          I.op = I_GEP; I.ops.push_back(opnd(LLVMGetOperand(i, 0))); LLVMTypeRef t = LLVMGetGEPSourceElementType(i); unsigned n = LLVMGetNumOperands(i);
          if (LLVMGetTypeKind(T) == LLVMVectorTypeKind) { I.op = I_UNSUP; break; }
          for (unsigned k = 1; k < n; k++) { LLVMValueRef ix = LLVMGetOperand(i, k); i64 sc;
            if (k > 1 && LLVMGetTypeKind(t) == LLVMStructTypeKind) { unsigned c = (unsigned)constInt(ix); I.goff += LLVMOffsetOfElement(DL, t, c); t = LLVMStructGetTypeAtIndex(t, c); continue; }
            if (k > 1) t = LLVMGetElementType(t);
            sc = (i64)LLVMABISizeOfType(DL, t); unsigned w = LLVMGetIntTypeWidth(LLVMTypeOf(ix));
            if (LLVMIsAConstantInt(ix)) I.goff += (i64)sext128(constInt(ix), w) * sc; else I.gidx.push_back({opnd(ix), sc, (u16)w}); }
          break; }
        case LLVMRet: I.op = I_RET; if (LLVMGetNumOperands(i)) ops(1); break;
        case LLVMUnreachable: I.op = I_UNREACH; break;
        case LLVMSwitch: { I.op = I_SWITCH; ops(1); I.w2 = ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->leaves[0].w; unsigned n = LLVMGetNumSuccessors(i); I.t1 = bbi[LLVMGetSuccessor(i, 0)];
          for (unsigned k = 1; k < n; k++) I.cases.push_back({(u64)constInt(LLVMGetSwitchCaseValue(i, k)), bbi[LLVMGetSuccessor(i, k)]}); break; }
        case LLVMPHI: { I.op = I_PHI; unsigned n = LLVMCountIncoming(i); for (unsigned k = 0; k < n; k++) I.inc.push_back({bbi[LLVMGetIncomingBlock(i, k)], opnd(LLVMGetIncomingValue(i, k))}); B.nphi++; break; }
        case LLVMSelect: I.op = I_SELECT; ops(3); break;
        case LLVMExtractValue: case LLVMInsertValue: {
          I.op = oc == LLVMExtractValue ? I_EXTRACTVAL : I_INSERTVAL; ops(oc == LLVMExtractValue ? 1 : 2); LLVMTypeRef t = LLVMTypeOf(LLVMGetOperand(i, 0)); unsigned n = LLVMGetNumIndices(i); const unsigned* ix = LLVMGetIndices(i); u32 lo = 0;
          for (unsigned k = 0; k < n; k++) { if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned q = 0; q < ix[k]; q++) lo += ty(LLVMStructGetTypeAtIndex(t, q))->leaves.size(); t = LLVMStructGetTypeAtIndex(t, ix[k]); }
            else { t = LLVMGetElementType(t); lo += ix[k] * ty(t)->leaves.size(); } }
          I.lo = lo; break; }
        case LLVMExtractElement: I.op = I_EXTRACTEL; ops(2); break;
        case LLVMInsertElement: I.op = I_INSERTEL; ops(3); break;
        case LLVMShuffleVector: { I.op = I_SHUFFLE; ops(2); unsigned n = LLVMGetNumMaskElements(i); for (unsigned k = 0; k < n; k++) I.mask.push_back(LLVMGetMaskValue(i, k)); break; }
        case LLVMFreeze: I.op = I_FREEZE; ops(1); break;
        case LLVMFence: I.op = I_NOP; break;
        case LLVMAtomicCmpXchg: I.op = I_CMPXCHG; ops(3); I.ti = ty(LLVMTypeOf(LLVMGetOperand(i, 1))); break;
        case LLVMAtomicRMW: I.op = I_RMW; ops(2); I.sub = LLVMGetAtomicRMWBinOp(i); I.ti = ty(T); break;
        case LLVMCall: case LLVMInvoke: {
          I.op = I_CALL; I.invoke = oc == LLVMInvoke; if (I.invoke) I.t1 = bbi[LLVMGetNormalDest(i)];
          unsigned n = LLVMGetNumArgOperands(i); for (unsigned k = 0; k < n; k++) I.ops.push_back(opnd(LLVMGetOperand(i, k)));
          LLVMValueRef cal = LLVMGetCalledValue(i); if (LLVMIsAGlobalAlias(cal)) cal = LLVMAliasGetAliasee(cal);
          if (LLVMIsAFunction(cal)) { I.callee = getFn(cal); if (I.callee->h == (Handler)1) { I.op = I_NOP; if (I.invoke) { I.op = I_BR; } } }
          else if (LLVMIsAInlineAsm(cal)) { I.op = I_UNSUP; if (I.nd == 0) I.op = I_NOP; 
            else { I.op = I_FREEZE; // identity asm (black_box): take first scalar operand
              if (n == 0) I.op = I_UNSUP; else if (I.nd > 1) I.ops.assign(1, opnd(LLVMConstNull(T))); /* cpuid: no optional CPU features */ } if (I.invoke) I.op = I_UNSUP; }
          else I.ops.push_back(opnd(cal));
          I.ti = ty(T); auto& l = n ? ty(LLVMTypeOf(LLVMGetOperand(i, 0)))->leaves : ty(T)->leaves; I.w2 = l.empty() ? 0 : l[0].w;
          break; }
        default:
          if (LLVMIsATerminatorInst(i) && oc != LLVMResume) {
            unsigned n = LLVMGetNumSuccessors(i); if (n == 1) { I.op = I_BR; I.t1 = bbi[LLVMGetSuccessor(i, 0)]; break; }
            if (n == 2) { I.op = I_CBR; I.ops.push_back(opnd(LLVMGetCondition(i))); I.t1 = bbi[LLVMGetSuccessor(i, 0)]; I.t2 = bbi[LLVMGetSuccessor(i, 1)]; break; } }
          I.op = I_UNSUP;
      }
      B.in.push_back(std::move(I));
    }
  }
}
// ---------- memory ----------
static Obj* rd(State& s, u32 id) {
  if (id >= heapBase) { u32 k = id - heapBase; if (k >= s.objs.size()) return nullptr; return s.objs[k].p; }
  if (id == 0) return nullptr; auto it = s.gover.find(id); if (it != s.gover.end()) return it->second.p; return initGlobal(id);
}
static Obj* wr(State& s, u32 id) {
  if (id >= heapBase) { u32 k = id - heapBase; if (k >= s.objs.size()) return nullptr; ObjP& p = s.objs[k]; if (!p.p) return nullptr; if (p.p->rc > 1) { Obj* n = new Obj(*p.p); n->rc = 0; p = ObjP(n); } return p.p; }
  if (id == 0) return nullptr; auto it = s.gover.find(id); if (it == s.gover.end()) { Obj* g = initGlobal(id); Obj* n = new Obj(*g); n->rc = 0; s.gover[id] = ObjP(n); return n; }
  if (it->second.p->rc > 1) { Obj* n = new Obj(*it->second.p); n->rc = 0; it->second = ObjP(n); } return it->second.p;
}
static u64 newObj(State& s, u64 size, u8 kind) { Obj* o = new Obj(); o->size = size; o->kind = kind; o->d.assign(size, 0); s.objs.push_back(ObjP(o)); return ((u64)(heapBase + s.objs.size() - 1) << 32) + BASE; }
static u32 ido(u64 a) { return (u32)(a >> 32); }
static u64 off(u64 a) { return (u32)a - BASE; }
static std::string hex(u64 x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return b; }
static Obj* chk(State& s, u64 a, u64 n, bool w) {
  Obj* o = w ? wr(s, ido(a)) : rd(s, ido(a)); if (!o) endPath(E_MEM, "access to invalid or freed address " + hex(a));
  u64 f = off(a); if ((u32)a < BASE || f > o->size || n > o->size - f) endPath(E_MEM, "out-of-bounds access " + hex(a) + " size " + std::to_string(n) + " object size " + std::to_string(o->size));
  if (w && o->ro) endPath(E_MEM, "write to constant " + hex(a)); return o;
}
static V loadLeaf(Obj* o, u64 f, unsigned w, const State& s) {
  unsigned n = (w + 7) / 8;
  if (!o->hasSym) { if (w <= 64) { u64 x = 0; memcpy(&x, &o->d[f], n); return cv(x & mask64(w)); } u128 x = 0; memcpy(&x, &o->d[f], n); return V{mkConst(x, w), 0}; }
  bool any = false; for (unsigned i = 0; i < n; i++) if (o->sym(f + i)) { any = true; break; }
  if (!any) { if (w <= 64) { u64 x = 0; memcpy(&x, &o->d[f], n); return cv(x & mask64(w)); } u128 x = 0; memcpy(&x, &o->d[f], n); return V{mkConst(x, w), 0}; }
  Expr* r = nullptr; 
  for (unsigned i = 0; i < n; i++) { Expr* b = o->sym(f + i); if (b && b->op == VAR && b->x < s.fixed.size() && s.fixed[b->x] >= 0) b = nullptr, r = r ? mkConcat(mkConst((u8)s.fixed[o->sym(f + i)->x], 8), r) : mkConst((u8)s.fixed[o->sym(f + i)->x], 8);
    else { if (!b) b = mkConst(o->d[f + i], 8); r = r ? mkConcat(b, r) : b; } }
  if (r->w != w) r = mkExtract(r, 0, w); return fromE(r);
}
static void storeLeaf(Obj* o, u64 f, unsigned w, V v) {
  unsigned n = (w + 7) / 8;
  if (!v.e) { u64 x = v.c & mask64(w); memcpy(&o->d[f], &x, n > 8 ? 8 : n); if (n > 8) memset(&o->d[f + 8], 0, n - 8); if (o->hasSym) for (unsigned i = 0; i < n; i++) o->setSym(f + i, nullptr); return; }
  Expr* e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) { Expr* b = mkExtract(e, i * 8, 8); if (isC(b)) { o->d[f + i] = (u8)b->c; o->setSym(f + i, nullptr); } else o->setSym(f + i, b); }
}
static V byteAt(Obj* o, u64 i) { Expr* e = o->sym(i); return e ? V{e, 0} : cv(o->d[i]); }
static void setByte(Obj* o, u64 i, V v) { if (v.e && v.e->op != CONST) o->setSym(i, v.e); else { o->d[i] = v.e ? (u8)v.e->c : (u8)v.c; o->setSym(i, nullptr); } }
// ---------- path conditions ----------
static Expr* simp(State& s, Expr* e) {
  if (e->op == CONST) return e; bool any = false; for (u32 v : support(e)) if (v < s.fixed.size() && s.fixed[v] >= 0) { any = true; break; }
  if (!any) return e; g_sepoch++; return substFixed(e, s.fixed);
}
static void slice(State& s, Expr* c, std::vector<Expr*>& out) {
  static std::vector<u32> mark; static u32 gen = 0; gen++;
  if (mark.size() < s.nvars + 1) mark.resize(s.nvars + 1024, 0);
  for (u32 v : support(c)) { if (v >= mark.size()) mark.resize(v + 1024, 0); mark[v] = gen; }
  static std::vector<u8> in; in.assign(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!in[i]) { auto& sp = support(s.pc[i]); bool hit = false; for (u32 v : sp) if (mark[v] == gen) { hit = true; break; }
      if (hit) { in[i] = 1; out.push_back(s.pc[i]); for (u32 v : sp) if (mark[v] != gen) { mark[v] = gen; ch = true; } } } }
}
static int feasible(State& s, Expr* c, std::vector<u8>& model) {
  std::vector<Expr*> q; slice(s, c, q); q.push_back(c); model = s.model; if (model.size() < s.nvars) model.resize(s.nvars);
  int r = solveQuery(q, model); if (r < 0) { if (!optDumpQ.empty()) { FILE* f = fopen(optDumpQ.c_str(), "w"); if (f) { fputs(smtlib(q).c_str(), f); fclose(f); } } }
  return r;
}
static void addC(State& s, Expr* c) {
  c = simp(s, c); if (isC(c)) return;
  if (c->op == AND) { addC(s, c->a); addC(s, c->b); return; }
  if (c->op == EQ && isC(c->b) && c->a->op == VAR) { if (s.fixed.size() <= c->a->x) s.fixed.resize(c->a->x + 1, -1); s.fixed[c->a->x] = (int16_t)(u8)c->b->c; }
  s.pc.push_back(c);
}
static bool evalB(State& s, Expr* c) { g_epoch++; if (s.model.size() < s.nvars) s.model.resize(s.nvars); return evalExpr(c, s.model) != 0; }
static bool decide(State& s, Expr* c0) {
  Expr* c = simp(s, c0); if (isC(c)) return c->c != 0;
  for (auto& d : s.decided) if (d.first == c0) return d.second;
  bool v = evalB(s, c); Expr* other = v ? mkNot(c) : c; std::vector<u8> m; int r = feasible(s, other, m);
  if (r < 0) endPath(E_INCOMPLETE, "solver returned unknown");
  if (r == 1) { State* n = new State(s); n->model = m; addC(*n, other); n->decided.push_back({c0, !v}); n->depth++; work.push_back(n); stForks++; addC(s, v ? c : mkNot(c)); s.depth++; }
  // when the other side is infeasible the constraint is implied by the path condition and need not be added
  s.decided.push_back({c0, v}); return v;
}
// after a value choice: inputs the path condition now determines become constants
static void settle(State& s) {
  auto p = s.pend; s.pend.clear();
  for (u32 v : p) { if (v < s.fixed.size() && s.fixed[v] >= 0) continue; Expr* q = mkCmp(EQ, mkVar(v), mkConst(s.model[v], 8)); std::vector<u8> m; if (feasible(s, mkNot(q), m) == 0) addC(s, q); }
}
static u64 conc(State& s, V v, unsigned w) {
  if (!v.e) return v.c; if (v.e->op == CONST) return (u64)v.e->c;
  Expr* e = simp(s, v.e); if (isC(e)) return (u64)e->c;
  for (auto& d : s.decided) if (d.second && d.first->op == EQ && d.first->a == v.e && isC(d.first->b)) return (u64)d.first->b->c;
  g_epoch++; if (s.model.size() < s.nvars) s.model.resize(s.nvars); u64 x0 = (u64)evalExpr(e, s.model);
  std::vector<Expr*> q; slice(s, e, q); std::vector<std::pair<u64, std::vector<u8>>> vals; vals.push_back({x0, s.model});
  if (!solveAll(q, e, 8192, s.model, vals, timeUp)) { if (timeUp()) endPath(E_INCOMPLETE, "time limit"); endPath(E_INCOMPLETE, "concretisation limit"); }
  // one state per value; the marker makes the re-executed instruction take this value
  auto pend = [&](State& t) { t.pend.clear(); auto& sp = support(e); if (sp.size() <= 8) for (u32 v : sp) if (v >= t.fixed.size() || t.fixed[v] < 0) t.pend.push_back(v); };
  auto mark = [&](u64 x) { return mkRaw(EQ, 1, v.e, mkConst(x, v.e->w)); };
  for (size_t i = 1; i < vals.size(); i++) { State* n = new State(s); n->model = vals[i].second; addC(*n, mkCmp(EQ, e, mkConst(vals[i].first, e->w))); pend(*n); n->decided.push_back({mark(vals[i].first), true}); n->depth++; work.push_back(n); stForks++; }
  if (vals.size() > 1) { addC(s, mkCmp(EQ, e, mkConst(x0, e->w))); s.depth++; }
  pend(s); settle(s);
  s.decided.push_back({mark(x0), true}); return x0;
}
static void report(State& s, EndKind k, const std::string& msg, const std::vector<u8>& model);
static void assume(State& s, Expr* c) {
  c = simp(s, c); if (isC(c)) { if (!c->c) endPath(E_INFEASIBLE); return; }
  if (!evalB(s, c)) { std::vector<u8> m; int r = feasible(s, c, m); if (r < 0) endPath(E_INCOMPLETE, "solver returned unknown"); if (!r) endPath(E_INFEASIBLE); s.model = m; }
  addC(s, c);
}
static u32 freshVars(State& s, u32 n) { u32 f = s.nvars; s.nvars += n; s.model.resize(s.nvars, 0); return f; }
static void symbolize(State& s, u64 a, u64 n, const std::string& name) {
  if (!n) { s.inputs.push_back({name, s.nvars, 0}); return; }
  Obj* o = chk(s, a, n, true); u32 f = freshVars(s, n); for (u64 i = 0; i < n; i++) o->setSym(off(a) + i, mkVar(f + i)); s.inputs.push_back({name, f, (u32)n});
}
// ---------- reporting ----------
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void emit(const std::string& line) { std::string l = line + "\n"; if (outFd >= 0) { if (write(outFd, l.data(), l.size()) < 0) {} } else { fputs(l.c_str(), stdout); fflush(stdout); } }
static std::string inputsJson(State& s, const std::vector<u8>& model) {
  std::string o = "["; bool first = true; char b[4];
  for (auto& in : s.inputs) { if (!first) o += ","; first = false; o += "[" + jstr(in.name) + ",\""; for (u32 i = 0; i < in.len; i++) { snprintf(b, 4, "%02x", in.first + i < model.size() ? model[in.first + i] : 0); o += b; } o += "\"]"; }
  return o + "]";
}
static std::string obsJson(State& s, const std::vector<u8>& model) {
  std::string o = "["; bool first = true; char b[4]; g_epoch++;
  for (auto& ob : s.obs) { if (!first) o += ","; first = false; o += "[" + jstr(ob.first) + ",\""; for (auto& v : ob.second) { snprintf(b, 4, "%02x", v.e ? (u8)evalExpr(v.e, model) : (u8)v.c); o += b; } o += "\"]"; }
  return o + "]";
}
static std::map<std::string, int> violSeen;
static std::string stackStr(State& s) { std::string o = "["; for (size_t i = s.fr.size(); i-- > 0 && i + 14 > s.fr.size();) { if (o.size() > 1) o += ","; o += jstr(s.fr[i].fn->name); } return o + "]"; }
static void report(State& s, EndKind k, const std::string& msg, const std::vector<u8>& model) {
  std::string key = std::string(endNames[k]) + msg; if (++violSeen[key] > (int)optMaxViol) return;
  if (!SH->tviol) SH->tviol = now(); if (__sync_add_and_fetch(&SH->nviol, 1) >= optStopViol) SH->stop = 1;
  emit("{\"t\":\"violation\",\"kind\":\"" + std::string(endNames[k]) + "\",\"msg\":" + jstr(msg) + ",\"inputs\":" + inputsJson(s, model) + ",\"stack\":" + stackStr(s) + "}");
}
static V get(Frame& f, const Opnd& o, unsigned i = 0) { return o.k ? o.k[i] : o.slot >= 0 ? f.r[o.slot + i] : cv(0); }
// simplify a symbolic register value through fixed vars lazily only on use as address / branch
#include "exec.inc"
#include "ext.inc"
#include "main.inc"
