// Hash-consed bit-vector expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <algorithm>
#include <map>
#include <set>
#include <memory>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
               EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct Expr {
  Op op; u16 w; u32 id; u32 x;        // x: extract low bit / variable index
  u128 c;                             // constant value
  Expr *a, *b, *d;
  u64 umin, umax;                     // unsigned bounds (only meaningful for w<=64)
  u32 epoch; u128 ev;                 // evaluation memo
  u32 sepoch; Expr* sv;               // substitution memo
  const std::vector<u32>* sup;        // support (variables)
  void *zbv, *zbool;                  // z3 caches
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i128 sext128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

struct ExprKey { Op op; u16 w; u32 x; u128 c; Expr *a, *b, *d;
  bool operator==(const ExprKey& o) const { return op==o.op&&w==o.w&&x==o.x&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
struct ExprKeyHash { size_t operator()(const ExprKey& k) const {
  u64 h = (u64)k.op*0x9E3779B97F4A7C15ull + k.w*0xC2B2AE3D27D4EB4Full + k.x*0x165667B19E3779F9ull;
  auto mix=[&](u64 v){ h ^= v + 0x9E3779B97F4A7C15ull + (h<<6) + (h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; };
  mix((u64)k.c); mix((u64)(k.c>>64)); mix((u64)k.a); mix((u64)k.b); mix((u64)k.d); return h; } };

extern std::unordered_map<ExprKey, Expr*, ExprKeyHash> g_exprs;
extern u32 g_epoch, g_nexpr;

Expr* mkRaw(Op op, unsigned w, Expr* a=nullptr, Expr* b=nullptr, Expr* d=nullptr, u32 x=0, u128 c=0);
Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(u32 idx);                 // 8-bit variable
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkCmp(Op op, Expr* a, Expr* b); // EQ ULT ULE SLT SLE -> width 1
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
inline Expr* mkNot(Expr* a) { return mkBin(XOR, a, mkConst(maskw(a->w), a->w)); }
inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(AND, a, b); }
inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(OR, a, b); }
inline bool isC(Expr* e) { return e->op == CONST; }
inline bool isTrue(Expr* e) { return e->op == CONST && e->c == 1; }
inline bool isFalse(Expr* e) { return e->op == CONST && e->c == 0; }
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
bool foldCmp(Op op, u128 a, u128 b, unsigned w);
u128 evalExpr(Expr* e, const std::vector<u8>& model);  // memoised per g_epoch (caller bumps)
const std::vector<u32>& support(Expr* e);
Expr* substFixed(Expr* e, const std::vector<int16_t>& fixed); // memoised per g_sepoch
extern u32 g_sepoch;
std::string exprStr(Expr* e, int depth=6);
