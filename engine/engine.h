#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm-c/Core.h>
#include <functional>

struct V { Expr* e; u64 c; };
inline V cv(u64 c) { return V{nullptr, c}; }
inline bool isSym(const V& v) { return v.e && v.e->op != CONST; }
inline Expr* toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
inline V fromE(Expr* e) { if (e->op == CONST && e->w <= 64) return V{nullptr, (u64)e->c}; return V{e, 0}; }

struct Fn; struct Inst; struct State;
struct Opnd { int slot; u16 n; const V* k; };
enum IOp : u8 { I_BIN, I_CMP, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_PHI,
  I_EXTRACTVAL, I_INSERTVAL, I_EXTRACTEL, I_INSERTEL, I_SHUFFLE, I_UNREACH, I_NOP, I_FREEZE, I_CMPXCHG, I_RMW, I_UNSUP, I_FBIN, I_FCMP, I_FCAST };
enum Cast : u8 { C_TRUNC, C_ZEXT, C_SEXT, C_BIT };
struct GepIdx { Opnd op; i64 scale; u16 w; };
struct Leaf { u16 w; u32 off; };
struct TypeInfo { std::vector<Leaf> leaves; u64 size; };
typedef bool (*Handler)(State&, Inst&, std::vector<V>&, V*); // true: done; false: path terminated
struct Inst {
  IOp op = I_NOP; u8 sub = 0; u16 w = 0, w2 = 0; int dst = -1; u16 nd = 0;
  std::vector<Opnd> ops; std::vector<GepIdx> gidx; i64 goff = 0; const TypeInfo* ti = nullptr;
  int t1 = -1, t2 = -1; std::vector<std::pair<u64,int>> cases; std::vector<std::pair<int,Opnd>> inc; std::vector<int> mask;
  Fn* callee = nullptr; Handler h = nullptr; LLVMValueRef ref = nullptr; u32 lo = 0; bool invoke = false; u64 sz = 0;
};
struct Block { std::vector<Inst> in; int nphi = 0; };
struct Fn { std::string name; LLVMValueRef ref; bool decoded = false, decl = false, noret = false, mine = false; u32 nslots = 0, nargs = 0; std::vector<u16> argw; std::vector<int> argslot; std::vector<Block> bbs; Handler h = nullptr; Fn* redirect = nullptr; u32 objid = 0; u64 calls = 0; char numfmt = 0; bool ptr0 = false; };

struct Obj { int rc = 0; u64 size = 0; bool ro = false, hasSym = false; u8 kind = 0; std::vector<u8> d; std::vector<std::vector<Expr*>> sp;
  Expr* sym(u64 i) const { if (!hasSym) return nullptr; auto& p = sp[i >> 6]; return p.empty() ? nullptr : p[i & 63]; }
  void setSym(u64 i, Expr* e) { if (!hasSym) { if (!e) return; hasSym = true; sp.resize((size >> 6) + 1); } auto& p = sp[i >> 6]; if (p.empty()) { if (!e) return; p.assign(64, nullptr); } p[i & 63] = e; } };
struct ObjP { Obj* p = nullptr; ObjP() {} ObjP(Obj* o) : p(o) { if (p) p->rc++; } ObjP(const ObjP& o) : p(o.p) { if (p) p->rc++; } ObjP(ObjP&& o) : p(o.p) { o.p = nullptr; }
  ObjP& operator=(const ObjP& o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; } ~ObjP() { rel(); } void rel() { if (p && --p->rc == 0) delete p; p = nullptr; } };

struct Frame { Fn* fn; int bb, prev; u32 ip; std::vector<V> r; std::vector<u32> allocas; int dst; u16 nd; };
struct Input { std::string name; u32 first, len; };
struct HashEnt { u32 dom; std::vector<V> in; std::vector<u32> out; };
struct FdEnt { int file; u64 pos; int flags; bool open; };
struct FileEnt { std::string path; u32 obj; u64 len; bool exists; };
struct State {
  std::vector<Frame> fr; std::vector<ObjP> objs; // heap/stack objects, index id - heapBase
  std::map<u32, ObjP> gover;                    // overridden globals
  std::vector<Expr*> pc; std::vector<u8> model; std::vector<int16_t> fixed; u32 nvars = 0;
  std::vector<Input> inputs; std::vector<HashEnt> hashes; std::vector<std::pair<Expr*, bool>> decided; std::vector<u32> pend;
  std::vector<std::pair<std::string, std::vector<V>>> obs; std::vector<u32> covers;
  std::vector<FdEnt> fds; std::vector<FileEnt> files; std::string out; 
  u64 steps = 0; u32 depth = 0; u64 heapLive = 0, heapPeak = 0; u32 errnoObj = 0; u32 ioCount = 0; u32 fOp = 0, fNth = 0, fKind = 0; bool fHit = false; V clk{nullptr, 0}; bool clkSet = false; std::map<u32, V> cells;
};
