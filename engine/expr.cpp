#include "expr.h"
std::unordered_map<ExprKey, Expr*, ExprKeyHash> g_exprs;
u32 g_epoch = 0, g_nexpr = 0, g_sepoch = 0;
static std::vector<Expr*> g_small; // small constants by width

static void bounds(Expr* e) {
  unsigned w = e->w; if (w > 64) { e->umin = 0; e->umax = ~0ull; return; }
  u64 M = mask64(w); u64 lo = 0, hi = M;
  auto A = e->a, B = e->b;
  switch (e->op) {
    case CONST: lo = hi = (u64)e->c; break;
    case ADD: if (A->umax <= M - B->umax) { lo = A->umin + B->umin; hi = A->umax + B->umax; }
              else if (isC(B)) { // x + c (c may be a negative constant)
                u64 nc = (0 - (u64)B->c) & M; if (A->umin >= nc) { lo = A->umin - nc; hi = A->umax - nc; } }
              break;
    case SUB: if (A->umin >= B->umax) { lo = A->umin - B->umax; hi = A->umax - B->umin; } break;
    case MUL: { u128 p = (u128)A->umax * B->umax; if (p <= M) { lo = A->umin * B->umin; hi = (u64)p; } break; }
    case UDIV: if (B->umin > 0) { lo = A->umin / B->umax; hi = A->umax / B->umin; } break;
    case UREM: if (B->umin > 0) hi = std::min(A->umax, B->umax - 1); break;
    case AND: hi = std::min(A->umax, B->umax); break;
    case OR: case XOR: { u64 m = A->umax | B->umax; hi = m ? mask64(64 - __builtin_clzll(m)) : 0; if (e->op == OR) lo = std::max(A->umin, B->umin); break; }
    case LSHR: if (isC(B) && B->c < w) { lo = A->umin >> (u64)B->c; hi = A->umax >> (u64)B->c; } else hi = A->umax; break;
    case SHL: if (isC(B) && B->c < w && (A->umax <= (M >> (u64)B->c))) { lo = A->umin << (u64)B->c; hi = A->umax << (u64)B->c; } break;
    case ITE: lo = std::min(e->b->umin, e->d->umin); hi = std::max(e->b->umax, e->d->umax); break;
    case ZEXT: lo = A->umin; hi = A->umax; break;
    case CONCAT: lo = (A->umin << B->w) | B->umin; hi = (A->umax << B->w) | B->umax; break;
    case EXTRACT: if (e->x == 0 && A->w <= 64 && A->umax <= M) { lo = A->umin; hi = A->umax; }
                  else if (e->x && A->w <= 64 && (A->umax >> e->x) <= M) { lo = A->umin >> e->x; hi = A->umax >> e->x; } break;
    default: break;
  }
  e->umin = lo & M; e->umax = hi & M;
}

Expr* mkRaw(Op op, unsigned w, Expr* a, Expr* b, Expr* d, u32 x, u128 c) {
  ExprKey k{op, (u16)w, x, c, a, b, d};
  auto it = g_exprs.find(k); if (it != g_exprs.end()) return it->second;
  Expr* e = (Expr*)calloc(1, sizeof(Expr));
  e->op = op; e->w = w; e->x = x; e->c = c; e->a = a; e->b = b; e->d = d; e->id = g_nexpr++;
  bounds(e);
  g_exprs.emplace(k, e); return e;
}
Expr* mkConst(u128 v, unsigned w) {
  v &= maskw(w);
  return mkRaw(CONST, w, nullptr, nullptr, nullptr, 0, v);
}
Expr* mkVar(u32 idx) { return mkRaw(VAR, 8, nullptr, nullptr, nullptr, idx); }

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 M = maskw(w);
  switch (op) {
    case ADD: return (a + b) & M; case SUB: return (a - b) & M; case MUL: return (a * b) & M;
    case UDIV: return b ? a / b : M; case UREM: return b ? a % b : a;
    case SDIV: { if (!b) return 0; i128 x = sext128(a, w), y = sext128(b, w); if (y == -1) return (u128)(-x) & M; return (u128)(x / y) & M; }
    case SREM: { if (!b) return a; i128 x = sext128(a, w), y = sext128(b, w); if (y == -1) return 0; return (u128)(x % y) & M; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
    case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: { i128 x = sext128(a, w); return (u128)(x >> (unsigned)(b >= w ? w - 1 : b)) & M; }
    default: abort();
  }
}
bool foldCmp(Op op, u128 a, u128 b, unsigned w) {
  switch (op) { case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
    case SLT: return sext128(a, w) < sext128(b, w); case SLE: return sext128(a, w) <= sext128(b, w); default: abort(); }
}
static bool commut(Op op) { return op==ADD||op==MUL||op==AND||op==OR||op==XOR; }

static Expr* byteWise(Op op, Expr* a, Expr* b) { // a,b same width multiple of 8
  unsigned n = a->w / 8; Expr* r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Expr* x = mkExtract(a, i*8, 8); Expr* y = mkExtract(b, i*8, 8); Expr* z;
    if (isC(x) || isC(y)) z = mkBin(op, x, y); else return nullptr;
    r = r ? mkConcat(z, r) : z;
  }
  return r;
}
static bool structured(Expr* e) { return e->op==CONCAT||e->op==ZEXT||e->op==CONST; }

Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), w);
  if (commut(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  u128 M = maskw(w);
  if (op == SUB) {
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(ADD, a, mkConst(0 - b->c, w));
    if (a->op == ADD && a->b == b) return a->a;
    if (a->op == ADD && a->a == b) return a->b;
    if (a->op == ADD && isC(a->b) && b->op == ADD && isC(b->b) && a->a == b->a) return mkConst(a->b->c - b->b->c, w);
    if (b->op == ADD && isC(b->b) && b->a == a) return mkConst(0 - b->b->c, w);
    return mkRaw(SUB, w, a, b);
  }
  if (isC(b)) {
    u128 c = b->c;
    switch (op) {
      case ADD: if (!c) return a;
        if (a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkConst(a->b->c + c, w));
        if (a->op == SUB && isC(a->a)) return mkBin(SUB, mkConst(a->a->c + c, w), a->b);
        if (a->op == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c + c, w), mkConst(a->d->c + c, w));
        if (w == 1) return mkBin(XOR, a, b);
        break;
      case MUL: if (!c) return b; if (c == 1) return a;
        if ((c & (c - 1)) == 0) { unsigned k = 0; while (!((c >> k) & 1)) k++; return mkBin(SHL, a, mkConst(k, w)); }
        break;
      case UDIV: if (c == 1) return a;
        if (c && (c & (c - 1)) == 0) { unsigned k = 0; while (!((c >> k) & 1)) k++; return mkBin(LSHR, a, mkConst(k, w)); }
        if (w <= 64 && c && a->umax < c) return mkConst(0, w);
        break;
      case UREM: if (c && (c & (c - 1)) == 0) return mkBin(AND, a, mkConst(c - 1, w));
        if (w <= 64 && c && a->umax < c) return a;
        break;
      case AND: if (!c) return b; if (c == M) return a;
        if (a->op == AND && isC(a->b)) return mkBin(AND, a->a, mkConst(a->b->c & c, w));
        // contiguous low mask
        if (((c + 1) & c) == 0) { unsigned k = 0; while ((c >> k) & 1) k++; return mkZext(mkExtract(a, 0, k), w); }
        if (w % 8 == 0 && w > 8 && w <= 128) { bool ok = true; for (unsigned i = 0; i < w/8; i++) { u8 v = (u8)(c >> (8*i)); if (v && v != 0xff) ok = false; }
          if (ok || structured(a)) { Expr* r = nullptr; for (unsigned i = 0; i < w/8; i++) { Expr* z = mkBin(AND, mkExtract(a, i*8, 8), mkConst((u8)(c >> (8*i)), 8)); r = r ? mkConcat(z, r) : z; } return r; } }
        if (w <= 64 && (a->umax != 0)) { u64 am = mask64(64 - __builtin_clzll(a->umax)); if ((am & ~(u64)c) == 0) return a; }
        break;
      case OR: if (!c) return a; if (c == M) return b;
        if (a->op == OR && isC(a->b)) return mkBin(OR, a->a, mkConst(a->b->c | c, w));
        break;
      case XOR: if (!c) return a;
        if (a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkConst(a->b->c ^ c, w));
        if (w == 1) { // logical not
          if (a->op == ULT) return mkCmp(ULE, a->b, a->a);
          if (a->op == ULE) return mkCmp(ULT, a->b, a->a);
          if (a->op == SLT) return mkCmp(SLE, a->b, a->a);
          if (a->op == SLE) return mkCmp(SLT, a->b, a->a);
          if (a->op == ITE) return mkIte(a->a, mkNot(a->b), mkNot(a->d));
        }
        break;
      case SHL: if (!c) return a; if (c >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - (unsigned)c), mkConst(0, (unsigned)c));
      case LSHR: if (!c) return a; if (c >= w) return mkConst(0, w);
        return mkZext(mkExtract(a, (unsigned)c, w - (unsigned)c), w);
      case ASHR: if (!c) return a; if (c >= w) c = w - 1;
        return mkSext(mkExtract(a, (unsigned)c, w - (unsigned)c), w);
      default: break;
    }
  }
  if (a == b) { if (op == AND || op == OR) return a; if (op == XOR) return mkConst(0, w); }
  if (w == 1 && (op == AND || op == OR)) {
    // x & !x, x | !x
    if ((a->op == XOR && a->a == b && isC(a->b)) || (b->op == XOR && b->a == a && isC(b->b))) return mkConst(op == OR, 1);
  }
  if ((op == SHL || op == LSHR || op == ASHR) && isC(a) && a->c == 0) return a;
  if ((op == UDIV || op == UREM || op == SDIV || op == SREM) && isC(a) && a->c == 0) return a;
  if ((op == OR || op == XOR || op == AND || op == ADD) && w % 8 == 0 && w > 8 && w <= 128 && structured(a) && structured(b)) {
    if (op == ADD) { // disjoint bytes only
      bool dis = true; for (unsigned i = 0; i < w/8 && dis; i++) { Expr* x = mkExtract(a,i*8,8); Expr* y = mkExtract(b,i*8,8); if (!((isC(x)&&x->c==0)||(isC(y)&&y->c==0))) dis = false; }
      if (dis) { Expr* r = byteWise(OR, a, b); if (r) return r; }
    } else { Expr* r = byteWise(op, a, b); if (r) return r; }
  }
  return mkRaw(op, w, a, b);
}

Expr* mkCmp(Op op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "cmp width mismatch: %u %u\n", a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldCmp(op, a->c, b->c, w), 1);
  if (a == b) return mkConst(op == EQ || op == ULE || op == SLE, 1);
  if (w <= 64) {
    if (op == EQ && (a->umax < b->umin || b->umax < a->umin)) return mkConst(0, 1);
    if (op == ULT) { if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1); }
    if (op == ULE) { if (a->umax <= b->umin) return mkConst(1, 1); if (a->umin > b->umax) return mkConst(0, 1); }
    if (op == SLT || op == SLE) { u64 h = mask64(w) >> 1;
      if (a->umax <= h && b->umax <= h) return mkCmp(op == SLT ? ULT : ULE, a, b);
      if (a->umin > h && b->umin > h) return mkCmp(op == SLT ? ULT : ULE, a, b);
      if (a->umax <= h && b->umin > h) return mkConst(0, 1);
      if (a->umin > h && b->umax <= h) return mkConst(1, 1);
    }
  }
  if (op == EQ) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); return mkNot(mkBin(XOR, a, b)); }
    if (isC(b)) {
      switch (a->op) {
        case ADD: if (isC(a->b)) return mkCmp(EQ, a->a, mkConst(b->c - a->b->c, w)); break;
        case XOR: if (isC(a->b)) return mkCmp(EQ, a->a, mkConst(b->c ^ a->b->c, w)); break;
        case SUB: if (isC(a->a)) return mkCmp(EQ, a->b, mkConst(a->a->c - b->c, w));
                  if (b->c == 0) return mkCmp(EQ, a->a, a->b); break;
        case ZEXT: if (b->c >> a->a->w) return mkConst(0, 1); return mkCmp(EQ, a->a, mkConst(b->c, a->a->w));
        case SEXT: { u128 t = b->c & maskw(a->a->w); if (((u128)sext128(t, a->a->w) & maskw(w)) != b->c) return mkConst(0,1); return mkCmp(EQ, a->a, mkConst(t, a->a->w)); }
        case CONCAT: return mkAnd(mkCmp(EQ, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkCmp(EQ, a->b, mkConst(b->c, a->b->w)));
        case ITE: if (isC(a->b) && isC(a->d)) { bool x = a->b->c == b->c, y = a->d->c == b->c; if (x && y) return mkConst(1,1); if (x) return a->a; if (y) return mkNot(a->a); return mkConst(0,1); }
                  if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkCmp(EQ, a->b, b), mkCmp(EQ, a->d, b));
                  break;
        default: break;
      }
    } else {
      if (a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); return mkCmp(EQ, mkZext(a->a, m), mkZext(b->a, m)); }
      if (a->op == ADD && isC(a->b) && a->a == b) return mkConst(0, 1);
      if (b->op == ADD && isC(b->b) && b->a == a) return mkConst(0, 1);
      if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w) return mkAnd(mkCmp(EQ, a->a, b->a), mkCmp(EQ, a->b, b->b));
    }
  } else if (op == ULT || op == ULE) {
    if (a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); if (m < w) return mkCmp(op, mkZext(a->a, m), mkZext(b->a, m)); }
    if (a->op == ZEXT && isC(b)) { if (b->c >> a->a->w) return mkConst(1, 1); return mkCmp(op, a->a, mkConst(b->c, a->a->w)); }
    if (b->op == ZEXT && isC(a)) { if (a->c >> b->a->w) return mkConst(0, 1); return mkCmp(op, mkConst(a->c, b->a->w), b->a); }
    if (op == ULT && isC(b) && b->c == 1) return mkCmp(EQ, a, mkConst(0, w));
    if (op == ULE && isC(b) && b->c == 0) return mkCmp(EQ, a, b);
    if (op == ULT && isC(a) && a->c == 0) return mkNot(mkCmp(EQ, b, a));
    if (isC(b) && a->op == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->d, b));
    if (isC(a) && b->op == ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->d));
  } else {
    if (isC(b) && a->op == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->d, b));
    if (isC(a) && b->op == ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->d));
  }
  return mkRaw(op, 1, a, b);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isTrue(c)) return a; if (isFalse(c)) return b; if (a == b) return a;
  if (a->w != b->w) { fprintf(stderr, "ite width mismatch\n"); abort(); }
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (c->op == XOR && isC(c->b)) return mkIte(c->a, b, a);
  if (a->op == ITE && a->a == c) a = a->b;
  if (b->op == ITE && b->a == c) b = b->d;
  return mkRaw(ITE, a->w, c, a, b);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo) && w <= 128) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->x == lo->x + lo->w) return mkExtract(hi->a, lo->x, w);
  // EXTRACT at low position of a zext'd/whole value
  if (hi->op == EXTRACT && hi->a == lo && false) return nullptr;
  // normalise to right-nested: (h1 . h2) . lo with h2.lo mergeable
  if (lo->op == CONCAT) {
    Expr* l1 = lo->a;
    if (isC(hi) && isC(l1)) return mkConcat(mkConst((hi->c << l1->w) | l1->c, hi->w + l1->w), lo->b);
    if (hi->op == EXTRACT && l1->op == EXTRACT && hi->a == l1->a && hi->x == l1->x + l1->w) return mkConcat(mkExtract(hi->a, l1->x, hi->w + l1->w), lo->b);
  }
  if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->op == ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  return mkRaw(CONCAT, w, hi, lo);
}

Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo + w > a->w) { fprintf(stderr, "bad extract %u+%u of %u\n", lo, w, a->w); abort(); }
  if (w == a->w) return a;
  switch (a->op) {
    case CONST: return mkConst(a->c >> lo, w);
    case EXTRACT: return mkExtract(a->a, a->x + lo, w);
    case CONCAT: { unsigned lw = a->b->w;
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case ZEXT: { unsigned iw = a->a->w; if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      return mkZext(mkExtract(a->a, lo, iw - lo), w); }
    case SEXT: { unsigned iw = a->a->w; if (lo + w <= iw) return mkExtract(a->a, lo, w);
      if (lo < iw) return mkSext(mkExtract(a->a, lo, iw - lo), w); 
      return mkSext(mkExtract(a->a, iw - 1, 1), w); }
    case ITE: if ((isC(a->b) || isC(a->d)) ) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
    case AND: case OR: case XOR: return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case ADD: case SUB: case MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
  }
  if (a->w <= 64 && lo < 64 && (a->umax >> lo) == 0) return mkConst(0, w);
  return mkRaw(EXTRACT, w, a, nullptr, nullptr, lo);
}
Expr* mkZext(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == ZEXT) return mkZext(a->a, w);
  return mkRaw(ZEXT, w, a);
}
Expr* mkSext(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sext128(a->c, a->w), w);
  if (a->op == ZEXT) return mkZext(a->a, w);
  if (a->op == SEXT) return mkSext(a->a, w);
  if (a->w <= 64 && a->w > 1 && a->umax <= (mask64(a->w) >> 1)) return mkZext(a, w);
  if (a->w == 1) return mkIte(a, mkConst(maskw(w), w), mkConst(0, w));
  return mkRaw(SEXT, w, a);
}

u128 evalExpr(Expr* e, const std::vector<u8>& m) {
  if (e->op == CONST) return e->c;
  if (e->epoch == g_epoch) return e->ev;
  u128 r = 0;
  switch (e->op) {
    case VAR: r = e->x < m.size() ? m[e->x] : 0; break;
    case EQ: case ULT: case ULE: case SLT: case SLE: r = foldCmp(e->op, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w); break;
    case ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->d, m); break;
    case CONCAT: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
    case EXTRACT: r = (evalExpr(e->a, m) >> e->x) & maskw(e->w); break;
    case ZEXT: r = evalExpr(e->a, m); break;
    case SEXT: r = (u128)sext128(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
    default:
      if (e->w == 1 && e->op == AND) r = evalExpr(e->a, m) ? evalExpr(e->b, m) : 0;
      else if (e->w == 1 && e->op == OR) r = evalExpr(e->a, m) ? 1 : evalExpr(e->b, m);
      else r = foldBin(e->op, evalExpr(e->a, m), evalExpr(e->b, m), e->w);
  }
  e->epoch = g_epoch; e->ev = r; return r;
}

const std::vector<u32>& support(Expr* e) {
  if (e->sup) return *e->sup;
  static const std::vector<u32>* empty = new std::vector<u32>();
  if (e->op == CONST) { e->sup = empty; return *empty; }
  if (e->op == VAR) { e->sup = new std::vector<u32>{e->x}; return *e->sup; }
  const std::vector<u32>* ks[3] = {nullptr, nullptr, nullptr}; int n = 0;
  if (e->a) ks[n++] = &support(e->a); if (e->b) ks[n++] = &support(e->b); if (e->d) ks[n++] = &support(e->d);
  const std::vector<u32>* cur = ks[0];
  std::vector<u32> tmp;
  for (int i = 1; i < n; i++) {
    if (ks[i]->empty() || ks[i] == cur) continue; if (cur->empty()) { cur = ks[i]; continue; }
    std::vector<u32> t2; std::set_union(cur->begin(), cur->end(), ks[i]->begin(), ks[i]->end(), std::back_inserter(t2));
    tmp.swap(t2); 
    cur = new std::vector<u32>(tmp);
  }
  e->sup = cur; return *cur;
}

Expr* substFixed(Expr* e, const std::vector<int16_t>& f) {
  if (e->op == CONST) return e;
  if (e->sepoch == g_sepoch) return e->sv;
  Expr* r = e;
  if (e->op == VAR) { if (e->x < f.size() && f[e->x] >= 0) r = mkConst((u8)f[e->x], 8); }
  else {
    Expr *a = e->a ? substFixed(e->a, f) : nullptr, *b = e->b ? substFixed(e->b, f) : nullptr, *d = e->d ? substFixed(e->d, f) : nullptr;
    if (a != e->a || b != e->b || d != e->d) switch (e->op) {
      case EQ: case ULT: case ULE: case SLT: case SLE: r = mkCmp(e->op, a, b); break;
      case ITE: r = mkIte(a, b, d); break; case CONCAT: r = mkConcat(a, b); break;
      case EXTRACT: r = mkExtract(a, e->x, e->w); break; case ZEXT: r = mkZext(a, e->w); break; case SEXT: r = mkSext(a, e->w); break;
      default: r = mkBin(e->op, a, b);
    }
  }
  e->sepoch = g_sepoch; e->sv = r; return r;
}

std::string exprStr(Expr* e, int depth) {
  static const char* names[] = {"const","var","add","sub","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext"};
  char buf[64];
  if (e->op == CONST) { snprintf(buf, 64, "%llu:%u", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == VAR) { snprintf(buf, 64, "v%u", e->x); return buf; }
  if (!depth) return "...";
  std::string s = "("; s += names[e->op]; if (e->op == EXTRACT) { snprintf(buf, 64, "[%u+%u]", e->x, e->w); s += buf; }
  for (Expr* k : {e->a, e->b, e->d}) if (k) s += " " + exprStr(k, depth - 1);
  return s + ")";
}
