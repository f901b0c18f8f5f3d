// external functions and intrinsics
#define H(name) static bool name(State& s, Inst& I, std::vector<V>& a, V* ret)
static bool endsWith(const std::string& s, const char* t) { size_t n = strlen(t); return s.size() >= n && !s.compare(s.size() - n, n, t); }
static bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
static Expr* conj(std::vector<Expr*>& v) { if (v.empty()) return mkConst(1, 1); while (v.size() > 1) { std::vector<Expr*> n; for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(mkAnd(v[i], v[i + 1])); if (v.size() & 1) n.push_back(v.back()); v.swap(n); } return v[0]; }
static void setErrno(State& s, int e);
// --- alloc
static void allocCheck(State& s, V sz) {
  if (isSym(sz)) { if (!decide(s, mkCmp(ULE, sz.e, mkConst(optAlloc, 64)))) { g_epoch++; endPath(E_ALLOC, "allocation above limit"); } }
  else if ((sz.e ? (u64)sz.e->c : sz.c) > optAlloc) endPath(E_ALLOC, "allocation above limit");
}
static u64 doAlloc(State& s, V sz) { allocCheck(s, sz); u64 n = conc(s, sz, 64); u64 p = newObj(s, n, 0); s.heapLive += n; if (s.heapLive > s.heapPeak) s.heapPeak = s.heapLive; return p; }
static void doFree(State& s, u64 p) { if (!p) return; u32 id = ido(p); Obj* o = rd(s, id); if (!o || id < heapBase || o->kind != 0 || off(p)) endPath(E_MEM, "invalid free " + hex(p)); s.heapLive -= o->size; s.objs[id - heapBase] = ObjP(); }
H(h_alloc) { ret[0] = cv(doAlloc(s, a[0])); return true; }
H(h_calloc) { ret[0] = cv(doAlloc(s, fromE(mkBin(MUL, toE(a[0], 64), toE(a[1], 64))))); return true; }
H(h_dealloc) { doFree(s, conc(s, a[0], 64)); return true; }
static void copyBytes(State& s, u64 d, u64 sr, u64 n) {
  if (!n) return; Obj* so = chk(s, sr, n, false); ObjP hold(so); // keep the source alive if the destination is copied on write
  Obj* dst = chk(s, d, n, true); u64 fo = off(sr), fd = off(d);
  if (so == dst || !so->hasSym) { if (so == dst && so->hasSym) { std::vector<V> t(n); for (u64 i = 0; i < n; i++) t[i] = byteAt(so, fo + i); for (u64 i = 0; i < n; i++) setByte(dst, fd + i, t[i]); return; }
    memmove(&dst->d[fd], &so->d[fo], n); if (dst->hasSym) for (u64 i = 0; i < n; i++) dst->setSym(fd + i, nullptr); return; }
  if (ido(d) == ido(sr)) { std::vector<V> t(n); for (u64 i = 0; i < n; i++) t[i] = byteAt(so, fo + i); for (u64 i = 0; i < n; i++) setByte(dst, fd + i, t[i]); return; }
  memcpy(&dst->d[fd], &so->d[fo], n); for (u64 i = 0; i < n; i++) { Expr* e = so->sym(fo + i); if (e || dst->hasSym) dst->setSym(fd + i, e); }
}
static u64 doRealloc(State& s, u64 p, V nsz) { allocCheck(s, nsz); u64 n = conc(s, nsz, 64); Obj* o = p ? rd(s, ido(p)) : nullptr; u64 q = newObj(s, n, 0); s.heapLive += n; if (s.heapLive > s.heapPeak) s.heapPeak = s.heapLive; if (p) { if (!o) endPath(E_MEM, "bad realloc"); copyBytes(s, q, p, std::min(o->size, n)); doFree(s, p); } return q; }
H(h_realloc4) { ret[0] = cv(doRealloc(s, conc(s, a[0], 64), a[3])); return true; }
H(h_realloc) { ret[0] = cv(doRealloc(s, conc(s, a[0], 64), a[1])); return true; }
H(h_memalign) { u64 pp = conc(s, a[0], 64); u64 q = doAlloc(s, a[2]); Obj* o = chk(s, pp, 8, true); storeLeaf(o, off(pp), 64, cv(q)); ret[0] = cv(0); return true; }
// --- mem
H(h_memcpy) { u64 n = conc(s, a[2], 64); if (n) { u64 d = conc(s, a[0], 64), r = conc(s, a[1], 64); copyBytes(s, d, r, n); } ret[0] = a[0]; return true; }
H(h_memset) { u64 n = conc(s, a[2], 64); ret[0] = a[0]; if (!n) return true; u64 d = conc(s, a[0], 64); V b = a[1]; if (b.e && b.e->w > 8) b = fromE(mkExtract(b.e, 0, 8)); Obj* o = chk(s, d, n, true); u64 f = off(d);
  if (!isSym(b)) { memset(&o->d[f], (int)(b.e ? (u64)b.e->c : b.c), n); if (o->hasSym) for (u64 i = 0; i < n; i++) o->setSym(f + i, nullptr); } else for (u64 i = 0; i < n; i++) o->setSym(f + i, b.e); return true; }
static Expr* eqBytes(State& s, const std::vector<V>& x, const std::vector<V>& y) {
  std::vector<Expr*> c; for (size_t i = 0; i < x.size(); i++) { if (!x[i].e && !y[i].e) { if ((u8)x[i].c != (u8)y[i].c) return mkConst(0, 1); continue; } if (x[i].e == y[i].e) continue; Expr* e = simp(s, mkCmp(EQ, toE(x[i], 8), toE(y[i], 8))); if (isC(e)) { if (!e->c) return e; continue; } c.push_back(e); }
  return conj(c);
}
H(h_memcmp) { bool b = I.callee && I.callee->name == "bcmp"; u64 n = conc(s, a[2], 64); if (!n) { ret[0] = cv(0); return true; } u64 p = conc(s, a[0], 64), q = conc(s, a[1], 64); Obj* x = chk(s, p, n, false); Obj* y = chk(s, q, n, false); u64 fx = off(p), fy = off(q);
  if (!x->hasSym && !y->hasSym) { int r = memcmp(&x->d[fx], &y->d[fy], n); ret[0] = cv((u32)(r < 0 ? -1 : r > 0)); return true; }
  if (b) { std::vector<V> l(n), m(n); for (u64 i = 0; i < n; i++) { l[i] = byteAt(x, fx + i); m[i] = byteAt(y, fy + i); } ret[0] = fromE(mkIte(eqBytes(s, l, m), mkConst(0, 32), mkConst(1, 32))); return true; }
  Expr* r = mkConst(0, 32); for (u64 i = n; i-- > 0;) { Expr *l = simp(s, toE(byteAt(x, fx + i), 8)), *m = simp(s, toE(byteAt(y, fy + i), 8)); if (l == m) continue; r = mkIte(mkCmp(EQ, l, m), r, mkIte(mkCmp(ULT, l, m), mkConst(0xffffffffu, 32), mkConst(1, 32))); }
  ret[0] = fromE(r); return true; }
H(h_strlen) { u64 p = conc(s, a[0], 64); for (u64 i = 0;; i++) { Obj* o = chk(s, p + i, 1, false); V b = byteAt(o, off(p) + i); bool z = b.e ? decide(s, mkCmp(EQ, b.e, mkConst(0, 8))) : (u8)b.c == 0; if (z) { ret[0] = cv(i); return true; } } }
static bool memchrImpl(State& s, std::vector<V>& a, V* ret, bool rev) { u64 n = conc(s, a[2], 64); u64 p = conc(s, a[0], 64); ret[0] = cv(0); if (!n) return true; Obj* o = chk(s, p, n, false); Expr* ch = mkExtract(toE(a[1], 32), 0, 8);
  for (u64 k = 0; k < n; k++) { u64 i = rev ? n - 1 - k : k; V b = byteAt(o, off(p) + i); Expr* e = mkCmp(EQ, toE(b, 8), ch); if (isC(e) ? e->c != 0 : decide(s, e)) { ret[0] = cv(p + i); return true; } } return true; }
H(h_memchr) { return memchrImpl(s, a, ret, false); }
H(h_memrchr) { return memchrImpl(s, a, ret, true); }
// --- llvm intrinsics
H(h_ret0) { ret[0] = a.empty() ? cv(0) : a[0]; return true; }
H(h_zero) { for (unsigned k = 0; k < I.nd; k++) ret[k] = I.ti->leaves[k].w > 64 ? V{mkConst(0, I.ti->leaves[k].w), 0} : cv(0); return true; }
H(h_minus1) { ret[0] = cv(mask64(I.w)); return true; }
template <class F> static void lanes(Inst& I, std::vector<V>& a, V* ret, F f) { for (unsigned k = 0; k < I.nd; k++) ret[k] = f(a[k], a.size() >= 2 * I.nd ? a[I.nd + k] : cv(0)); }
#define LANE(nm, ...) H(nm) { unsigned w = I.w; lanes(I, a, ret, [&](V x, V y) -> V { __VA_ARGS__ }); return true; }
LANE(h_umin, if (!x.e && !y.e) return cv(std::min(x.c, y.c)); Expr *p = toE(x, w), *q = toE(y, w); return fromE(mkIte(mkCmp(ULT, p, q), p, q));)
LANE(h_umax, if (!x.e && !y.e) return cv(std::max(x.c, y.c)); Expr *p = toE(x, w), *q = toE(y, w); return fromE(mkIte(mkCmp(ULT, p, q), q, p));)
LANE(h_smin, Expr *p = toE(x, w), *q = toE(y, w); return fromE(mkIte(mkCmp(SLT, p, q), p, q));)
LANE(h_smax, Expr *p = toE(x, w), *q = toE(y, w); return fromE(mkIte(mkCmp(SLT, p, q), q, p));)
LANE(h_uaddsat, Expr *p = toE(x, w), *q = toE(y, w); Expr* r = mkBin(ADD, p, q); return fromE(mkIte(mkCmp(ULT, r, p), mkConst(maskw(w), w), r));)
LANE(h_usubsat, Expr *p = toE(x, w), *q = toE(y, w); return fromE(mkIte(mkCmp(ULT, p, q), mkConst(0, w), mkBin(SUB, p, q)));)
LANE(h_abs, Expr* p = toE(x, w); (void)y; return fromE(mkIte(mkCmp(SLT, p, mkConst(0, w)), mkBin(SUB, mkConst(0, w), p), p));)
static Expr* ctpopE(Expr* x) { unsigned w = x->w; Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(x, i, 1), w)); return r; }
static Expr* ctlzE(Expr* x) { unsigned w = x->w; Expr* r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); return r; }
static Expr* cttzE(Expr* x) { unsigned w = x->w; Expr* r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); return r; }
LANE(h_ctpop, (void)y; if (!x.e) return cv(__builtin_popcountll(x.c)); return fromE(ctpopE(x.e));)
LANE(h_ctlz, (void)y; if (!x.e && w <= 64) return cv(x.c ? __builtin_clzll(x.c) - (64 - w) : w); return fromE(ctlzE(x.e));)
LANE(h_cttz, (void)y; if (!x.e && w <= 64) return cv(x.c ? __builtin_ctzll(x.c) : w); return fromE(cttzE(x.e));)
LANE(h_bswap, (void)y; Expr* p = toE(x, w); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* b = mkExtract(p, w - 8 - i * 8, 8); r = r ? mkConcat(b, r) : b; } return fromE(r);)
LANE(h_bitrev, (void)y; Expr* p = toE(x, w); Expr* r = nullptr; for (unsigned i = 0; i < w; i++) { Expr* b = mkExtract(p, w - 1 - i, 1); r = r ? mkConcat(b, r) : b; } return fromE(r);)
static V fsh(State& s, V hi, V lo, V c, unsigned w, bool left) { u64 k = conc(s, c, w) % w; if (k == 0) return left ? hi : lo; if (!left) k = w - k;
  return fromE(mkBin(OR, mkBin(SHL, toE(hi, w), mkConst(k, w)), mkBin(LSHR, toE(lo, w), mkConst(w - k, w)))); }
H(h_fshl) { for (unsigned k = 0; k < I.nd; k++) ret[k] = fsh(s, a[k], a[I.nd + k], a[2 * I.nd + k], I.w, true); return true; }
H(h_fshr) { for (unsigned k = 0; k < I.nd; k++) ret[k] = fsh(s, a[k], a[I.nd + k], a[2 * I.nd + k], I.w, false); return true; }
#define CMPI(nm, L) H(nm) { unsigned w = I.w2, rw = I.w; for (unsigned k = 0; k < I.nd; k++) { Expr *p = toE(a[k], w), *q = toE(a[I.nd + k], w); ret[k] = fromE(mkIte(mkCmp(L, p, q), mkConst(maskw(rw), rw), mkIte(mkCmp(EQ, p, q), mkConst(0, rw), mkConst(1, rw)))); } return true; }
CMPI(h_ucmp, ULT) CMPI(h_scmp, SLT)
H(h_uaddo) { unsigned w = I.w; if (!a[0].e && !a[1].e && w <= 64) { u64 r = (a[0].c + a[1].c) & mask64(w); ret[0] = cv(r); ret[1] = cv(r < a[0].c); return true; } Expr *p = toE(a[0], w), *q = toE(a[1], w), *r = mkBin(ADD, p, q); ret[0] = fromE(r); if (w <= 64 && p->umax <= mask64(w) - q->umax) ret[1] = cv(0); else ret[1] = fromE(mkCmp(ULT, r, p)); return true; }
H(h_usubo) { unsigned w = I.w; Expr *p = toE(a[0], w), *q = toE(a[1], w); ret[0] = fromE(mkBin(SUB, p, q)); ret[1] = fromE(mkCmp(ULT, p, q)); return true; }
H(h_umulo) { unsigned w = I.w; if (w > 64) endPath(E_UNSUP, "umulo"); if (!a[0].e && !a[1].e) { u128 r = (u128)a[0].c * a[1].c; ret[0] = cv((u64)r & mask64(w)); ret[1] = cv((r >> w) != 0); return true; } Expr* r = mkBin(MUL, mkZext(toE(a[0], w), 2 * w), mkZext(toE(a[1], w), 2 * w)); ret[0] = fromE(mkBin(MUL, toE(a[0], w), toE(a[1], w)));
  Expr *p = toE(a[0], w), *q = toE(a[1], w); if ((u128)p->umax * q->umax <= mask64(w)) { ret[1] = cv(0); return true; } if (isC(q) && q->c) { ret[1] = fromE(mkCmp(ULT, mkConst(mask64(w) / (u64)q->c, w), p)); return true; } if (isC(p) && p->c) { ret[1] = fromE(mkCmp(ULT, mkConst(mask64(w) / (u64)p->c, w), q)); return true; }
  ret[1] = fromE(mkNot(mkCmp(EQ, mkExtract(r, w, w), mkConst(0, w)))); return true; }
static bool sov(Inst& I, std::vector<V>& a, V* ret, Op op) { unsigned w = I.w, W = w > 64 ? 128 : 2 * w; Expr* r = mkBin(op, mkSext(toE(a[0], w), W), mkSext(toE(a[1], w), W)); Expr* lo = mkExtract(r, 0, w); ret[0] = fromE(lo); ret[1] = fromE(mkNot(mkCmp(EQ, mkSext(lo, W), r))); return true; }
H(h_saddo) { return sov(I, a, ret, ADD); } H(h_ssubo) { return sov(I, a, ret, SUB); } H(h_smulo) { return sov(I, a, ret, MUL); }
static bool reduce(Inst& I, std::vector<V>& a, V* ret, Op op) { V r = a[0]; for (size_t i = 1; i < a.size(); i++) r = binV(op, r, a[i], I.w); ret[0] = r; return true; }
H(h_redadd) { return reduce(I, a, ret, ADD); } H(h_redand) { return reduce(I, a, ret, AND); } H(h_redor) { return reduce(I, a, ret, OR); } H(h_redxor) { return reduce(I, a, ret, XOR); }
static bool redmm(Inst& I, std::vector<V>& a, V* ret, Op cmp, bool mx) { Expr* r = toE(a[0], I.w); for (size_t i = 1; i < a.size(); i++) { Expr* x = toE(a[i], I.w); r = mkIte(mkCmp(cmp, r, x), mx ? x : r, mx ? r : x); } ret[0] = fromE(r); return true; }
H(h_redumax) { return redmm(I, a, ret, ULT, true); } H(h_redumin) { return redmm(I, a, ret, ULT, false); }
H(h_trap) { endPath(E_ABORT, "trap"); }
H(h_ptrmask) { ret[0] = binV(AND, a[0], a[1], 64); return true; }
H(h_loadrel) { u64 b = conc(s, a[0], 64), o = conc(s, a[1], 64); Obj* ob = chk(s, b + o, 4, false); u64 x = conc(s, loadLeaf(ob, off(b + o), 32, s), 32); ret[0] = cv(b + (u64)(i64)(int32_t)x); return true; }
// --- ksym
static std::string rdStr(State& s, u64 p, u64 n) { std::string r; if (!n) return r; Obj* o = chk(s, p, n, false); for (u64 i = 0; i < n; i++) { V b = byteAt(o, off(p) + i); r += (char)conc(s, b, 8); } return r; }
H(k_bytes) { u64 n = conc(s, a[1], 64); u64 p = conc(s, a[0], 64); std::string nm = rdStr(s, conc(s, a[2], 64), conc(s, a[3], 64)); symbolize(s, p, n, nm); return true; }
static Expr* boolE(V v) { if (!v.e) return mkConst(v.c & 1, 1); return v.e->w == 1 ? v.e : mkExtract(v.e, 0, 1); }
H(k_assume) { assume(s, boolE(a[0])); return true; }
H(k_assert) {
  Expr* c = simp(s, boolE(a[0])); if (isTrue(c)) return true; std::string nm = rdStr(s, conc(s, a[1], 64), conc(s, a[2], 64));
  if (isFalse(c)) { if (s.model.size() < s.nvars) s.model.resize(s.nvars); report(s, E_ASSERT, nm, s.model); endPath(E_ASSERT, nm); }
  std::vector<u8> m; int r; if (!evalB(s, c)) { r = 1; m = s.model; } else r = feasible(s, mkNot(c), m);
  if (r < 0) endPath(E_INCOMPLETE, "solver returned unknown on assertion");
  if (r == 1) { report(s, E_ASSERT, nm, m); __sync_fetch_and_add(&SH->ends[E_ASSERT], 1); assume(s, c); }
  return true; }
H(k_cover) { u64 k = conc(s, a[0], 32); s.covers.push_back((u32)k); return true; }
H(k_observe) { std::string nm = rdStr(s, conc(s, a[0], 64), conc(s, a[1], 64)); u64 n = conc(s, a[3], 64); u64 p = conc(s, a[2], 64); std::vector<V> v; if (n) { Obj* o = chk(s, p, n, false); for (u64 i = 0; i < n; i++) v.push_back(byteAt(o, off(p) + i)); } s.obs.push_back({nm, v}); return true; }
H(k_concrete) { ret[0] = cv(conc(s, a[0], 64)); return true; }
H(k_one) { ret[0] = cv(1); return true; }
H(k_heap_reset) { s.heapPeak = s.heapLive; return true; }
H(k_heap_peak) { ret[0] = cv(s.heapPeak); return true; }
H(k_heap_live) { ret[0] = cv(s.heapLive); return true; }
H(k_hash) { // dom, ptr, len, out, outlen : ideal collision-free function
  u32 dom = (u32)conc(s, a[0], 32); u64 n = conc(s, a[2], 64), m = conc(s, a[4], 64), p = conc(s, a[1], 64), q = conc(s, a[3], 64); std::vector<V> in(n);
  if (n) { Obj* o = chk(s, p, n, false); for (u64 i = 0; i < n; i++) in[i] = byteAt(o, off(p) + i); }
  for (auto& h : s.hashes) if (h.dom == dom && h.in.size() == n) { Expr* e = eqBytes(s, h.in, in); if (isC(e) ? e->c != 0 : decide(s, e)) { Obj* o = chk(s, q, m, true); for (u64 i = 0; i < m; i++) o->setSym(off(q) + i, mkVar(h.out[i])); return true; } }
  HashEnt h; h.dom = dom; h.in = in; u32 f = freshVars(s, (u32)m); u64 z = f * 0x9E3779B97F4A7C15ull; for (u64 i = 0; i < m; i++) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; s.model[f + i] = (u8)(z >> 24); h.out.push_back(f + i); }
  for (auto& g : s.hashes) if (g.dom == dom) for (int half = 0; half < 2; half++) { std::vector<Expr*> c; for (u64 i = half * (m / 2); i < (half ? m : m / 2); i++) { Expr* e = simp(s, mkCmp(EQ, mkVar(g.out[i]), mkVar(f + i))); c.push_back(e); } if (!c.empty()) assume(s, mkNot(conj(c))); } // no near-collisions either
  s.hashes.push_back(h); Obj* o = chk(s, q, m, true); for (u64 i = 0; i < m; i++) o->setSym(off(q) + i, mkVar(f + i)); return true; }
// --- files
static int findFile(State& s, const std::string& p) { for (size_t i = 0; i < s.files.size(); i++) if (s.files[i].exists && s.files[i].path == p) return (int)i; return -1; }
static int mkFile(State& s, const std::string& p) { u64 o = newObj(s, 0, 4); s.files.push_back({p, ido(o), 0, true}); return (int)s.files.size() - 1; }
static Obj* fileGrow(State& s, FileEnt& f, u64 n) { Obj* o = wr(s, f.obj); if (o->size < n) { o->size = n; o->d.resize(n, 0); if (o->hasSym) o->sp.resize((n >> 6) + 1); } return o; }
H(k_file_put) { std::string p = rdStr(s, conc(s, a[0], 64), conc(s, a[1], 64)); u64 n = conc(s, a[3], 64), q = conc(s, a[2], 64); int k = findFile(s, p); if (k < 0) k = mkFile(s, p); Obj* o = fileGrow(s, s.files[k], n); s.files[k].len = n; if (n) { Obj* r = chk(s, q, n, false); for (u64 i = 0; i < n; i++) setByte(o, i, byteAt(r, off(q) + i)); } return true; }
H(k_file_len) { std::string p = rdStr(s, conc(s, a[0], 64), conc(s, a[1], 64)); int k = findFile(s, p); ret[0] = cv(k < 0 ? ~0ull : s.files[k].len); return true; }
H(k_file_get) { std::string p = rdStr(s, conc(s, a[0], 64), conc(s, a[1], 64)); u64 n = conc(s, a[3], 64), q = conc(s, a[2], 64); int k = findFile(s, p); if (k < 0) endPath(E_UNSUP, "file_get"); n = std::min(n, s.files[k].len); if (n) { Obj* r = rd(s, s.files[k].obj); ObjP hold(r); Obj* o = chk(s, q, n, true); for (u64 i = 0; i < n; i++) setByte(o, off(q) + i, byteAt(r, i)); } return true; }
static void setErrno(State& s, int e) { if (!s.errnoObj) { u64 o = newObj(s, 8, 4); s.errnoObj = ido(o); } Obj* o = wr(s, s.errnoObj); storeLeaf(o, 0, 32, cv((u32)e)); }
H(h_errno) { if (!s.errnoObj) setErrno(s, 0); ret[0] = cv(((u64)s.errnoObj << 32) + BASE); return true; }
static std::string cstr(State& s, u64 p) { std::string r; for (u64 i = 0;; i++) { Obj* o = chk(s, p + i, 1, false); char c = (char)conc(s, byteAt(o, off(p) + i), 8); if (!c) return r; r += c; } }
static bool fail(State& s, V* ret, int e, Inst& I) { setErrno(s, e); ret[0] = cv(mask64(I.w)); return true; }
// injected fault (ksym_fault): the nth call of one kind after arming fails (kind 0: I/O error, 1: interrupted, 2: one byte only)
static bool faultNow(State& s, u32 op) { if (s.fOp != op) return false; if (s.fNth) { s.fNth--; return false; } s.fOp = 0; s.fHit = true; return true; }
H(k_fault) { s.fOp = (u32)conc(s, a[0], 32); s.fNth = (u32)conc(s, a[1], 32); s.fKind = (u32)conc(s, a[2], 32); s.fHit = false; return true; }
H(k_fault_hit) { s.fOp = 0; ret[0] = cv(s.fHit); return true; }
static bool doOpen(State& s, Inst& I, const std::string& p, int fl, V* ret) { if (faultNow(s, 3)) return fail(s, ret, s.fKind == 1 ? 4 : 13, I); int k = findFile(s, p); if (k < 0) { if (!(fl & 0x40)) return fail(s, ret, 2, I); k = mkFile(s, p); } else if ((fl & 0xc0) == 0xc0) return fail(s, ret, 17, I); if (fl & 0x200) s.files[k].len = 0; s.fds.push_back({k, (fl & 0x400) ? s.files[k].len : 0, fl, true}); ret[0] = cv(s.fds.size() - 1 + 3); return true; }
H(h_open) { return doOpen(s, I, cstr(s, conc(s, a[0], 64)), (int)conc(s, a[1], 32), ret); }
H(h_openat) { return doOpen(s, I, cstr(s, conc(s, a[1], 64)), (int)conc(s, a[2], 32), ret); }
static FdEnt* fdof(State& s, u64 fd) { fd = (u32)fd; if (fd < 3 || fd - 3 >= s.fds.size() || !s.fds[fd - 3].open) return nullptr; return &s.fds[fd - 3]; }
static u64 doRead(State& s, FdEnt* f, u64 pos, u64 buf, u64 n) { FileEnt& fe = s.files[f->file]; u64 av = pos < fe.len ? fe.len - pos : 0; n = std::min(n, av); if (!n) return 0; Obj* r = rd(s, fe.obj); ObjP hold(r); Obj* o = chk(s, buf, n, true);
  if (!r->hasSym && !o->hasSym) memcpy(&o->d[off(buf)], &r->d[pos], n); else { memcpy(&o->d[off(buf)], &r->d[pos], n); for (u64 i = 0; i < n; i++) { Expr* e = r->sym(pos + i); if (e || o->hasSym) o->setSym(off(buf) + i, e); } } return n; }
H(h_read) { FdEnt* f = fdof(s, conc(s, a[0], 32)); if (!f) return fail(s, ret, 9, I); bool ft = faultNow(s, 1); if (ft && s.fKind < 2) return fail(s, ret, s.fKind ? 4 : 5, I); u64 n = conc(s, a[2], 64), b = conc(s, a[1], 64); if (ft && n > 1) n = 1; u64 r = doRead(s, f, f->pos, b, n); f->pos += r; ret[0] = cv(r); return true; }
H(h_pread) { FdEnt* f = fdof(s, conc(s, a[0], 32)); if (!f) return fail(s, ret, 9, I); u64 n = conc(s, a[2], 64), b = conc(s, a[1], 64); ret[0] = cv(doRead(s, f, conc(s, a[3], 64), b, n)); return true; }
H(h_write) { u64 fd = conc(s, a[0], 32); u64 n = conc(s, a[2], 64), b = conc(s, a[1], 64); if (fd == 1 || fd == 2) { if (fd == 1 && n) { Obj* o = chk(s, b, n, false); int k = findFile(s, "/ksym/stdout"); if (k < 0) k = mkFile(s, "/ksym/stdout"); u64 l = s.files[k].len; Obj* w = fileGrow(s, s.files[k], l + n); s.files[k].len = l + n; for (u64 i = 0; i < n; i++) setByte(w, l + i, byteAt(o, off(b) + i)); } ret[0] = cv(n); return true; }
  FdEnt* f = fdof(s, fd); if (!f) return fail(s, ret, 9, I); if (faultNow(s, 2)) { if (s.fKind < 2) return fail(s, ret, s.fKind ? 4 : 28, I); if (n > 1) n = 1; } FileEnt& fe = s.files[f->file]; if (n) { Obj* r = chk(s, b, n, false); ObjP hold(r); Obj* o = fileGrow(s, fe, f->pos + n); if (f->pos > fe.len) for (u64 i = fe.len; i < f->pos; i++) setByte(o, i, cv(0)); for (u64 i = 0; i < n; i++) setByte(o, f->pos + i, byteAt(r, off(b) + i)); f->pos += n; if (f->pos > fe.len) fe.len = f->pos; } ret[0] = cv(n); return true; }
H(h_lseek) { FdEnt* f = fdof(s, conc(s, a[0], 32)); if (!f) return fail(s, ret, 9, I); i64 o = (i64)conc(s, a[1], 64); u64 w = conc(s, a[2], 32); i64 b = w == 0 ? 0 : w == 1 ? (i64)f->pos : (i64)s.files[f->file].len; i64 r; if (__builtin_add_overflow(b, o, &r) || r < 0) return fail(s, ret, 22, I); f->pos = (u64)r; ret[0] = cv((u64)r); return true; }
H(h_close) { FdEnt* f = fdof(s, conc(s, a[0], 32)); if (!f) return fail(s, ret, 9, I); f->open = false; ret[0] = cv(0); return true; }
static void fillStatx(State& s, u64 p, u64 len, u64 ino) { Obj* o = chk(s, p, 256, true); for (u64 i = 0; i < 256; i++) setByte(o, off(p) + i, cv(0)); storeLeaf(o, off(p), 32, cv(0x7ff)); storeLeaf(o, off(p) + 4, 32, cv(4096)); storeLeaf(o, off(p) + 0x1c, 16, cv(0100644)); storeLeaf(o, off(p) + 0x28, 64, cv(len)); storeLeaf(o, off(p) + 0x20, 64, cv(ino)); storeLeaf(o, off(p) + 0x10, 32, cv(1)); storeLeaf(o, off(p) + 0x88, 32, cv(8)); }
H(h_statx) { std::string p = cstr(s, conc(s, a[1], 64)); int k = -1; if (p.empty()) { FdEnt* f = fdof(s, conc(s, a[0], 32)); if (f) k = f->file; } else k = findFile(s, p); if (k < 0) return fail(s, ret, 2, I); fillStatx(s, conc(s, a[4], 64), s.files[k].len, 100 + k); ret[0] = cv(0); return true; }
static void fillStat(State& s, u64 p, u64 len, u64 ino) { Obj* o = chk(s, p, 144, true); for (u64 i = 0; i < 144; i++) setByte(o, off(p) + i, cv(0)); storeLeaf(o, off(p) + 24, 32, cv(0100644)); storeLeaf(o, off(p) + 48, 64, cv(len)); storeLeaf(o, off(p) + 56, 64, cv(4096)); storeLeaf(o, off(p), 64, cv(0x800)); storeLeaf(o, off(p) + 8, 64, cv(ino)); storeLeaf(o, off(p) + 16, 64, cv(1)); }
H(h_fstat) { FdEnt* f = fdof(s, conc(s, a[0], 32)); if (!f) return fail(s, ret, 9, I); fillStat(s, conc(s, a[1], 64), s.files[f->file].len, 100 + f->file); ret[0] = cv(0); return true; }
H(h_stat) { int k = findFile(s, cstr(s, conc(s, a[0], 64))); if (k < 0) return fail(s, ret, 2, I); fillStat(s, conc(s, a[1], 64), s.files[k].len, 100 + k); ret[0] = cv(0); return true; }
H(h_ftruncate) { FdEnt* f = fdof(s, conc(s, a[0], 32)); if (!f) return fail(s, ret, 9, I); u64 n = conc(s, a[1], 64); FileEnt& fe = s.files[f->file]; Obj* o = fileGrow(s, fe, n); for (u64 i = fe.len; i < n; i++) setByte(o, i, cv(0)); fe.len = n; ret[0] = cv(0); return true; }
H(h_unlink) { int k = findFile(s, cstr(s, conc(s, a[0], 64))); if (k < 0) return fail(s, ret, 2, I); s.files[k].exists = false; ret[0] = cv(0); return true; }
H(h_rename) { int k = findFile(s, cstr(s, conc(s, a[0], 64))); if (k < 0) return fail(s, ret, 2, I); std::string t = cstr(s, conc(s, a[1], 64)); int j = findFile(s, t); if (j >= 0 && j != k) s.files[j].exists = false; s.files[k].path = t; ret[0] = cv(0); return true; }
H(h_realpath) { std::string p = cstr(s, conc(s, a[0], 64)); if (findFile(s, p) < 0 && p != "/ksym") { setErrno(s, 2); ret[0] = cv(0); return true; } u64 q = conc(s, a[1], 64); if (!q) { q = newObj(s, p.size() + 1, 0); s.heapLive += p.size() + 1; } Obj* o = chk(s, q, p.size() + 1, true); for (u64 i = 0; i <= p.size(); i++) setByte(o, off(q) + i, cv(i < p.size() ? (u8)p[i] : 0)); ret[0] = cv(q); return true; }
H(h_enosys) { return fail(s, ret, 38, I); }
H(h_einval) { return fail(s, ret, 22, I); }
H(h_enotty) { setErrno(s, 25); ret[0] = cv(0); return true; }
H(h_getrandom) { u64 n = conc(s, a[1], 64), p = conc(s, a[0], 64); if (n) { Obj* o = chk(s, p, n, true); for (u64 i = 0; i < n; i++) setByte(o, off(p) + i, cv((u8)(i * 37 + 11))); } ret[0] = cv(n); return true; }
H(h_syscall) { if (conc(s, a[0], 64) == 318) { std::vector<V> b(a.begin() + 1, a.end()); return h_getrandom(s, I, b, ret); } return h_enosys(s, I, a, ret); }
H(k_clock) { s.clk = a[0]; s.clkSet = true; return true; }
H(h_clock) { u64 p = conc(s, a[1], 64); Obj* o = chk(s, p, 16, true); bool real = conc(s, a[0], 32) == 0 && s.clkSet; storeLeaf(o, off(p), 64, real ? s.clk : cv(1750000000)); storeLeaf(o, off(p) + 8, 64, cv(real ? 999999999 : 0)); ret[0] = cv(0); return true; }
H(h_exit) { endPath(E_EXIT, std::to_string((int)conc(s, a[0], 32))); }
H(h_abort) { endPath(E_ABORT, "abort"); }
H(h_getenv) { ret[0] = cv(0); return true; }
H(h_fmtwrite) { ret[0] = cv(0); return true; }
static Fn* emptyString;
static std::map<u32, u64> params;
H(k_param) { u32 k = (u32)conc(s, a[0], 32); auto it = params.find(k); ret[0] = cv(it == params.end() ? 0 : it->second); return true; }
static Handler findHandler(Fn* f) {
  const std::string& n = f->name; Handler NOP = (Handler)1;
  if (n.compare(0, 5, "llvm.") == 0) {
    auto p = [&](const char* t) { return !n.compare(5, strlen(t), t); };
    if (p("lifetime") || p("assume") || p("experimental.noalias") || p("dbg") || p("donothing") || p("prefetch") || p("invariant") || p("sideeffect") || p("pseudoprobe") || p("va_end") || p("stackrestore") || p("fake.use")) return NOP;
    if (p("memcpy") || p("memmove")) return h_memcpy; if (p("memset")) return h_memset; if (p("threadlocal") || p("expect") || p("launder") || p("strip") || p("ssa.copy")|| p("annotation")) return h_ret0;
    if (p("umin.")) return h_umin; if (p("umax.")) return h_umax; if (p("smin.")) return h_smin; if (p("smax.")) return h_smax; if (p("uadd.sat")) return h_uaddsat; if (p("usub.sat")) return h_usubsat; if (p("abs.")) return h_abs;
    if (p("ctpop")) return h_ctpop; if (p("ctlz")) return h_ctlz; if (p("cttz")) return h_cttz; if (p("bswap")) return h_bswap; if (p("bitreverse")) return h_bitrev; if (p("fshl")) return h_fshl; if (p("fshr")) return h_fshr; if (p("ucmp")) return h_ucmp; if (p("scmp")) return h_scmp;
    if (p("uadd.with")) return h_uaddo; if (p("usub.with")) return h_usubo; if (p("umul.with")) return h_umulo; if (p("sadd.with")) return h_saddo; if (p("ssub.with")) return h_ssubo; if (p("smul.with")) return h_smulo;
    if (p("vector.reduce.add")) return h_redadd; if (p("vector.reduce.and")) return h_redand; if (p("vector.reduce.or")) return h_redor; if (p("vector.reduce.xor")) return h_redxor; if (p("vector.reduce.umax")) return h_redumax; if (p("vector.reduce.umin")) return h_redumin;
    if (p("trap") || p("ubsantrap") || p("debugtrap")) return h_trap; if (p("ptrmask")) return h_ptrmask; if (p("is.constant") || p("stacksave")) return h_zero; if (p("objectsize")) return h_minus1; if (p("load.relative")) return h_loadrel;
    return nullptr;
  }
  if (!n.compare(0, 5, "ksym_")) {
    static std::map<std::string, Handler> m = {{"ksym_bytes", k_bytes}, {"ksym_assume", k_assume}, {"ksym_assert", k_assert}, {"ksym_cover", k_cover}, {"ksym_observe", k_observe}, {"ksym_concrete", k_concrete}, {"ksym_is_symbolic", k_one}, {"ksym_param", k_param}, {"ksym_hash", k_hash}, {"ksym_heap_reset", k_heap_reset}, {"ksym_heap_peak", k_heap_peak}, {"ksym_heap_live", k_heap_live}, {"ksym_fault", k_fault}, {"ksym_clock", k_clock}, {"ksym_fault_hit", k_fault_hit}, {"ksym_file_put", k_file_put}, {"ksym_file_len", k_file_len}, {"ksym_file_get", k_file_get}};
    auto it = m.find(n); if (it != m.end()) return it->second; return nullptr;
  }
  if (endsWith(n, "19___rust_alloc_zeroed") || endsWith(n, "12___rust_alloc") || n == "malloc") return h_alloc;
  if (endsWith(n, "14___rust_dealloc") || n == "free") return h_dealloc; if (endsWith(n, "14___rust_realloc")) return h_realloc4; if (n == "realloc") return h_realloc; if (n == "calloc") return h_calloc; if (n == "posix_memalign") return h_memalign;
  if (has(n, "___rust_no_alloc_shim_is_unstable")) return NOP;
  { // integer formatting: a symbolic number prints as '?' (see doCall)
    size_t p = n.find("4core3fmt3num"); if (p != std::string::npos) { size_t e = n.size(); size_t d = n.rfind('.'); if (d != std::string::npos && d + 1 < n.size() && isdigit(n[d + 1])) e = d; std::string b = n.substr(0, e);
      if (endsWith(b, "7Display3fmt") || endsWith(b, "5Debug3fmt") || endsWith(b, "8LowerHex3fmt") || endsWith(b, "8UpperHex3fmt")) { size_t q = p + 13; if (!b.compare(q, 4, "3imp")) q += 4; f->numfmt = b[q]; if (endsWith(b, "8LowerHex3fmt") && b[q] == 'h') f->numfmt = 'H'; } } }
  if (optFmtStub) {
    if (has(n, "5alloc3fmt6format")) { f->redirect = emptyString; if (f->redirect) return nullptr; }
    if (endsWith(n, "4core3fmt5write")) return h_fmtwrite;
  }
  if (has(n, "5stdio6__print") || has(n, "5stdio7__eprint")) { if (!optStdout || has(n, "7__eprint")) return NOP; }
  static std::map<std::string, Handler> m = {{"memcpy", h_memcpy}, {"memmove", h_memcpy}, {"memset", h_memset}, {"memcmp", h_memcmp}, {"bcmp", h_memcmp}, {"strlen", h_strlen}, {"memchr", h_memchr}, {"memrchr", h_memrchr},
    {"__errno_location", h_errno}, {"open", h_open}, {"open64", h_open}, {"openat", h_openat}, {"openat64", h_openat}, {"read", h_read}, {"pread", h_pread}, {"pread64", h_pread}, {"write", h_write}, {"lseek", h_lseek}, {"lseek64", h_lseek}, {"close", h_close}, {"statx", h_statx}, {"fstat", h_fstat}, {"fstat64", h_fstat}, {"stat", h_stat}, {"stat64", h_stat}, {"lstat64", h_stat},
    {"ftruncate64", h_ftruncate}, {"ftruncate", h_ftruncate}, {"unlink", h_unlink}, {"rename", h_rename}, {"realpath", h_realpath}, {"fsync", h_zero}, {"fdatasync", h_zero}, {"syscall", h_syscall}, {"copy_file_range", h_enosys}, {"sendfile64", h_enosys}, {"sendfile", h_enosys}, {"splice", h_enosys}, {"fchmod", h_zero}, {"isatty", h_enotty}, {"ioctl", h_einval}, {"fcntl", h_zero}, {"fcntl64", h_zero}, {"poll", h_zero}, {"getrandom", h_getrandom}, {"clock_gettime", h_clock}, {"exit", h_exit}, {"_exit", h_exit}, {"abort", h_abort}, {"getenv", h_getenv},
    {"__cxa_thread_atexit_impl", h_zero}, {"pthread_key_create", h_zero}, {"pthread_setspecific", h_zero}, {"pthread_getspecific", h_zero}, {"signal", h_zero}, {"sigaction", h_zero}, {"sigaltstack", h_zero}, {"getcwd", h_getenv}, {"gnu_get_libc_version", h_getenv}, {"__xpg_strerror_r", h_zero}, {"posix_fadvise64", h_zero}, {"mmap", h_minus1}, {"flock", h_zero}, {"utimensat", h_zero}, {"futimens", h_zero}};
  auto it = m.find(n); if (it != m.end()) return it->second;
  return nullptr;
}
