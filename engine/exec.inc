// instruction execution
static void jump(State& s, int t) {
  Frame& f = s.fr.back(); f.prev = f.bb; f.bb = t; f.ip = 0; Block& B = f.fn->bbs[t];
  if (B.nphi) {
    static std::vector<V> tmp; tmp.clear();
    for (int i = 0; i < B.nphi; i++) { Inst& P = B.in[i]; bool ok = false; for (auto& in : P.inc) if (in.first == f.prev) { for (unsigned k = 0; k < P.nd; k++) tmp.push_back(get(f, in.second, k)); ok = true; break; } if (!ok) endPath(E_UNSUP, "phi without incoming"); }
    size_t q = 0; for (int i = 0; i < B.nphi; i++) { Inst& P = B.in[i]; for (unsigned k = 0; k < P.nd; k++) f.r[P.dst + k] = tmp[q++]; }
    f.ip = B.nphi;
  }
}
static V binV(Op op, V a, V b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c, M = mask64(w);
    switch (op) { case ADD: return cv((x + y) & M); case SUB: return cv((x - y) & M); case MUL: return cv((x * y) & M); case AND: return cv(x & y); case OR: return cv(x | y); case XOR: return cv(x ^ y);
      case SHL: return cv(y >= w ? 0 : (x << y) & M); case LSHR: return cv(y >= w ? 0 : x >> y); default: return cv((u64)foldBin(op, x, y, w)); }
  }
  return fromE(mkBin(op, toE(a, w), toE(b, w)));
}
static V cmpV(int p, V a, V b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c; i64 sx = (i64)(x << (64 - w)), sy = (i64)(y << (64 - w));
    switch (p) { case LLVMIntEQ: return cv(x == y); case LLVMIntNE: return cv(x != y); case LLVMIntUGT: return cv(x > y); case LLVMIntUGE: return cv(x >= y); case LLVMIntULT: return cv(x < y); case LLVMIntULE: return cv(x <= y);
      case LLVMIntSGT: return cv(sx > sy); case LLVMIntSGE: return cv(sx >= sy); case LLVMIntSLT: return cv(sx < sy); case LLVMIntSLE: return cv(sx <= sy); }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (p) { case LLVMIntEQ: return fromE(mkCmp(EQ, x, y)); case LLVMIntNE: return fromE(mkNot(mkCmp(EQ, x, y))); case LLVMIntUGT: return fromE(mkCmp(ULT, y, x)); case LLVMIntUGE: return fromE(mkCmp(ULE, y, x));
    case LLVMIntULT: return fromE(mkCmp(ULT, x, y)); case LLVMIntULE: return fromE(mkCmp(ULE, x, y)); case LLVMIntSGT: return fromE(mkCmp(SLT, y, x)); case LLVMIntSGE: return fromE(mkCmp(SLE, y, x)); case LLVMIntSLT: return fromE(mkCmp(SLT, x, y)); case LLVMIntSLE: return fromE(mkCmp(SLE, x, y)); }
  abort();
}
static V iteV(Expr* c, V a, V b, unsigned w) { if (!a.e && !b.e && a.c == b.c) return a; if (a.e && a.e == b.e) return a; return fromE(mkIte(c, toE(a, w), toE(b, w))); }
static void loadAgg(State& s, V addr, const TypeInfo* ti, V* out) {
  if (isSym(addr)) {
    Expr* e = simp(s, addr.e);
    if (!isC(e)) {
      g_epoch++; if (s.model.size() < s.nvars) s.model.resize(s.nvars); u64 x = (u64)evalExpr(e, s.model); Obj* o = rd(s, ido(x));
      if (o && o->size <= 4096 && o->kind == 2 && o->ro && ti->leaves.size() == 1 && o->size >= ti->size) {
        u64 base = ((u64)ido(x) << 32) + BASE; Expr* of = mkBin(SUB, e, mkConst(base, 64)); u64 n = (ti->leaves[0].w + 7) / 8;
        Expr* inb = mkCmp(ULE, of, mkConst(o->size - n, 64)); std::vector<u8> m; int r = isC(inb) ? (inb->c ? 0 : 1) : feasible(s, mkNot(inb), m);
        if (r == 0) {
          // alignment: try stride n from the model's residue
          u64 lo = of->umin, hi = std::min<u64>(of->umax, o->size - n), res = (x - base) % n, st = 1;
          if (n > 1) { Expr* al = mkCmp(EQ, mkBin(UREM, of, mkConst(n, 64)), mkConst(res, 64)); if (isTrue(al) || (!isC(al) && feasible(s, mkNot(al), m) == 0)) { st = n; while (lo % n != res) lo++; } }
          Expr* v = nullptr; for (u64 k = lo; k <= hi; k += st) { Expr* L = toE(loadLeaf(o, k, ti->leaves[0].w, s), ti->leaves[0].w); v = v ? mkIte(mkCmp(EQ, of, mkConst(k, 64)), L, v) : L; }
          if (v) { out[0] = fromE(v); return; }
        }
      }
    }
  }
  u64 a = conc(s, addr, 64); Obj* o = chk(s, a, ti->size ? (ti->leaves.size() == 1 ? (ti->leaves[0].w + 7) / 8 : ti->size) : 0, false); u64 f = off(a);
  for (size_t i = 0; i < ti->leaves.size(); i++) out[i] = loadLeaf(o, f + ti->leaves[i].off, ti->leaves[i].w, s);
}
static void storeAgg(State& s, V addr, const TypeInfo* ti, const V* in) {
  u64 a = conc(s, addr, 64); Obj* o = chk(s, a, ti->leaves.size() == 1 ? (ti->leaves[0].w + 7) / 8 : ti->size, true); u64 f = off(a);
  for (size_t i = 0; i < ti->leaves.size(); i++) storeLeaf(o, f + ti->leaves[i].off, ti->leaves[i].w, in[i]);
}
static void advance(State& s, Inst& I) { if (I.invoke) jump(s, I.t1); else s.fr.back().ip++; }
static bool isStdFn(const std::string& n) { // first crate root in a v0 symbol
  size_t p = n.find("Cs"); if (p == std::string::npos) return false; size_t q = n.find('_', p); if (q == std::string::npos) return false; const char* r = n.c_str() + q + 1;
  return !strncmp(r, "4core", 5) || !strncmp(r, "5alloc", 6) || !strncmp(r, "3std", 4) || !strncmp(r, "7___rustc", 9);
}
static std::string panicLoc(State& s, std::vector<V>& args) {
  for (size_t i = args.size(); i-- > 0;) { if (args[i].e) continue; u64 a = args[i].c; if (ido(a) == 0 || ido(a) >= heapBase) continue; Obj* o = rd(s, ido(a)); if (!o || o->kind != 2 || o->size < 24 || off(a) + 24 > o->size || o->hasSym) continue;
    u64 p, l; u32 line, col; memcpy(&p, &o->d[off(a)], 8); memcpy(&l, &o->d[off(a) + 8], 8); memcpy(&line, &o->d[off(a) + 16], 4); memcpy(&col, &o->d[off(a) + 20], 4);
    Obj* q = ido(p) && ido(p) < heapBase ? rd(s, ido(p)) : nullptr; if (!q || q->kind != 2) continue;
    // file string is nul-terminated and stored with length len+1 or len
    if (off(p) + l > q->size || l > 300 || line > 1000000) continue; std::string fn((char*)&q->d[off(p)], l); if (fn.find(".rs") == std::string::npos) continue; while (!fn.empty() && fn.back() == 0) fn.pop_back();
    return fn + ":" + std::to_string(line); }
  return "";
}
static Fn *symFmt, *hexFmt;
static V numArg(State& s, Fn* fn, std::vector<V>& args) { // value a core::fmt::num function is asked to print
  unsigned w; switch (fn->numfmt) { case 'h': case 'H': case 'a': w = 8; break; case 't': case 's': w = 16; break; case 'm': case 'l': w = 32; break; default: w = 64; }
  V v = args[0]; if (fn->ptr0) { u64 p = conc(s, v, 64); Obj* o = chk(s, p, w / 8, false); v = loadLeaf(o, off(p), w, s); } if (v.e) v = fromE(simp(s, v.e)); return v; }
static void doCall(State& s, Inst& I, Fn* fn, std::vector<V>& args) {
  if (fn->numfmt && args.size() == 2) { V v = numArg(s, fn, args); if (isSym(v)) { if (fn->numfmt == 'H' && hexFmt) { args[0] = v; fn = hexFmt; } else if (symFmt) { args.erase(args.begin()); fn = symFmt; } } }
  if (fn->redirect) fn = fn->redirect;
  if (fn->h) { V ret[64]; for (auto& r : ret) r = cv(0); if (I.nd > 64) endPath(E_UNSUP, "wide ret"); if (!fn->h(s, I, args, ret)) return; Frame& f = s.fr.back(); for (unsigned k = 0; k < I.nd; k++) f.r[I.dst + k] = ret[k]; advance(s, I); return; }
  if (fn->noret && isStdFn(fn->name)) {
    if (fn->name.find("7process4exit") != std::string::npos) endPath(E_EXIT, std::to_string(args.empty() ? 0 : (int)conc(s, args[0], 32)));
    if (fn->name.find("7process5abort") != std::string::npos) endPath(E_ABORT, "abort");
    std::string loc = panicLoc(s, args); endPath(fn->name.find("handle_alloc_error") != std::string::npos ? E_ALLOC : E_PANIC, fn->name.substr(fn->name.size() > 40 ? fn->name.size() - 40 : 0) + " at " + loc);
  }
  if (fn->decl) endPath(E_UNSUP, "external function " + fn->name);
  if (!fn->decoded) decode(fn); 
  fn->calls++;
  if (s.fr.size() > 400) endPath(E_INCOMPLETE, "call depth");
  s.fr.emplace_back(); Frame& n = s.fr.back(); n.fn = fn; n.bb = 0; n.prev = -1; n.ip = 0; n.r.resize(fn->nslots); n.dst = I.dst; n.nd = I.nd;
  for (size_t i = 0; i < args.size() && i < fn->nargs; i++) n.r[i] = args[i];
}
static void step(State& s) {
  Frame& f = s.fr.back(); Inst& I = f.fn->bbs[f.bb].in[f.ip];
  switch (I.op) {
    case I_BIN: for (unsigned k = 0; k < I.nd; k++) f.r[I.dst + k] = binV((Op)I.sub, get(f, I.ops[0], k), get(f, I.ops[1], k), I.w); f.ip++; break;
    case I_CMP: for (unsigned k = 0; k < I.nd; k++) f.r[I.dst + k] = cmpV(I.sub, get(f, I.ops[0], k), get(f, I.ops[1], k), I.w2); f.ip++; break;
    case I_CAST: {
      if (I.sub == C_BIT) {
        unsigned n0 = I.ops[0].n, n1 = I.nd;
        if (n0 == n1) for (unsigned k = 0; k < n1; k++) f.r[I.dst + k] = get(f, I.ops[0], k);
        else { // re-slice through bits
          unsigned w0 = I.w2, w1 = I.w;
          if (n1 == 1) { Expr* r = nullptr; for (unsigned k = 0; k < n0; k++) { Expr* x = toE(get(f, I.ops[0], k), w0); r = r ? mkConcat(x, r) : x; } f.r[I.dst] = fromE(r); }
          else if (n0 == 1) { Expr* x = toE(get(f, I.ops[0], 0), w0); for (unsigned k = 0; k < n1; k++) f.r[I.dst + k] = fromE(mkExtract(x, k * w1, w1)); }
          else for (unsigned k = 0; k < n1; k++) { // general: bits [k*w1, k*w1+w1)
            Expr* r = nullptr; unsigned b = k * w1, e = b + w1; while (b < e) { unsigned q = b / w0, lo = b % w0, n = std::min(w0 - lo, e - b); Expr* x = mkExtract(toE(get(f, I.ops[0], q), w0), lo, n); r = r ? mkConcat(x, r) : x; b += n; } f.r[I.dst + k] = fromE(r); }
        }
      } else for (unsigned k = 0; k < I.nd; k++) { V a = get(f, I.ops[0], k); V r;
        if (!a.e && I.w <= 64 && I.w2 <= 64) { if (I.sub == C_SEXT) r = cv((u64)sext128(a.c, I.w2) & mask64(I.w)); else r = cv(a.c & mask64(I.w)); }
        else { Expr* e = toE(a, I.w2); r = fromE(I.sub == C_TRUNC ? mkExtract(e, 0, I.w) : I.sub == C_ZEXT ? mkZext(e, I.w) : mkSext(e, I.w)); }
        f.r[I.dst + k] = r; }
      f.ip++; break; }
    case I_LOAD: { static V tmp[4096]; if (I.nd > 4096) endPath(E_UNSUP, "wide load"); loadAgg(s, get(f, I.ops[0]), I.ti, tmp); for (unsigned k = 0; k < I.nd; k++) f.r[I.dst + k] = tmp[k]; f.ip++; break; }
    case I_STORE: { static V tmp[4096]; unsigned n = I.ti->leaves.size(); if (n > 4096) endPath(E_UNSUP, "wide store"); for (unsigned k = 0; k < n; k++) tmp[k] = get(f, I.ops[0], k); storeAgg(s, get(f, I.ops[1]), I.ti, tmp); f.ip++; break; }
    case I_GEP: { V a = get(f, I.ops[0]);
      for (auto& g : I.gidx) { V ix = get(f, g.op); if (!ix.e && !a.e) { i64 k = (i64)(ix.c << (64 - g.w)) >> (64 - g.w); a.c += (u64)(k * g.scale); }
        else { Expr* x = mkSext(toE(ix, g.w), 64); if (g.scale != 1) x = mkBin(MUL, x, mkConst((u64)g.scale, 64)); a = fromE(mkBin(ADD, toE(a, 64), x)); } }
      if (I.goff) { if (!a.e) a.c += (u64)I.goff; else a = fromE(mkBin(ADD, a.e, mkConst((u64)I.goff, 64))); }
      f.r[I.dst] = a; f.ip++; break; }
    case I_ALLOCA: { u64 n = conc(s, get(f, I.ops[0]), 64); u64 a = newObj(s, I.sz * n, 1); f.allocas.push_back(ido(a)); f.r[I.dst] = cv(a); f.ip++; break; }
    case I_BR: jump(s, I.t1); break;
    case I_CBR: { V c = get(f, I.ops[0]); bool b = c.e ? decide(s, c.e) : c.c & 1; jump(s, b ? I.t1 : I.t2); break; }
    case I_SWITCH: { V c = get(f, I.ops[0]); if (c.e && isSym(c)) { Expr* e = simp(s, c.e); c = fromE(e); }
      if (!isSym(c)) { u64 x = c.e ? (u64)c.e->c : c.c; int t = I.t1; for (auto& k : I.cases) if (k.first == x) { t = k.second; break; } jump(s, t); break; }
      // group by target; default last
      std::map<int, Expr*> tg; std::vector<int> order; Expr* any = mkConst(0, 1);
      for (auto& k : I.cases) { Expr* q = mkCmp(EQ, c.e, mkConst(k.first, I.w2)); any = mkOr(any, q); if (k.second == I.t1) continue; auto& p = tg[k.second]; if (!p) { order.push_back(k.second); p = q; } else p = mkOr(p, q); }
      int t = I.t1; for (int o : order) if (decide(s, tg[o])) { t = o; break; } jump(s, t); break; }
    case I_RET: {
      static V rv[4096]; unsigned n = I.ops.empty() ? 0 : I.ops[0].n; for (unsigned k = 0; k < n; k++) rv[k] = get(f, I.ops[0], k);
      for (u32 id : f.allocas) s.objs[id - heapBase] = ObjP(); int dst = f.dst; unsigned nd = f.nd; s.fr.pop_back(); if (s.fr.empty()) endPath(E_OK);
      Frame& c = s.fr.back(); for (unsigned k = 0; k < nd && k < n; k++) c.r[dst + k] = rv[k]; advance(s, c.fn->bbs[c.bb].in[c.ip]); break; }
    case I_CALL: {
      static std::vector<V> args; args.clear(); size_t n = I.ops.size() - (I.callee ? 0 : 1); for (size_t k = 0; k < n; k++) for (unsigned q = 0; q < I.ops[k].n; q++) args.push_back(get(f, I.ops[k], q));
      Fn* fn = I.callee; if (!fn) { u64 a = conc(s, get(f, I.ops[n]), 64); u32 id = ido(a); if (id == 0 || id >= heapBase || !LLVMIsAFunction(gval[id])) endPath(E_MEM, "call to non-function " + hex(a)); fn = getFn(gval[id]); }
      if (fn->h == (Handler)1) { advance(s, I); break; }
      doCall(s, I, fn, args); break; }
    case I_SELECT: { V c = get(f, I.ops[0]);
      if (I.ops[0].n > 1) { for (unsigned k = 0; k < I.nd; k++) { V q = get(f, I.ops[0], k); V a = get(f, I.ops[1], k), b = get(f, I.ops[2], k); f.r[I.dst + k] = isSym(q) ? iteV(q.e, a, b, I.w) : ((q.e ? (u64)q.e->c : q.c) & 1) ? a : b; } f.ip++; break; }
      if (isSym(c)) { Expr* e = simp(s, c.e); c = fromE(e); }
      if (!isSym(c)) { bool b = c.e ? c.e->c != 0 : c.c & 1; for (unsigned k = 0; k < I.nd; k++) f.r[I.dst + k] = get(f, I.ops[b ? 1 : 2], k); }
      else if (I.nd == 1) f.r[I.dst] = iteV(c.e, get(f, I.ops[1]), get(f, I.ops[2]), I.w);
      else { auto& L = ty(LLVMTypeOf(I.ref))->leaves; for (unsigned k = 0; k < I.nd; k++) f.r[I.dst + k] = iteV(c.e, get(f, I.ops[1], k), get(f, I.ops[2], k), L[k].w); }
      f.ip++; break; }
    case I_EXTRACTVAL: for (unsigned k = 0; k < I.nd; k++) f.r[I.dst + k] = get(f, I.ops[0], I.lo + k); f.ip++; break;
    case I_INSERTVAL: for (unsigned k = 0; k < I.nd; k++) f.r[I.dst + k] = (k >= I.lo && k < I.lo + I.ops[1].n) ? get(f, I.ops[1], k - I.lo) : get(f, I.ops[0], k); f.ip++; break;
    case I_EXTRACTEL: { u64 ix = conc(s, get(f, I.ops[1]), 64); f.r[I.dst] = ix < I.ops[0].n ? get(f, I.ops[0], ix) : cv(0); f.ip++; break; }
    case I_INSERTEL: { u64 ix = conc(s, get(f, I.ops[2]), 64); for (unsigned k = 0; k < I.nd; k++) f.r[I.dst + k] = k == ix ? get(f, I.ops[1]) : get(f, I.ops[0], k); f.ip++; break; }
    case I_SHUFFLE: for (unsigned k = 0; k < I.nd; k++) { int m = I.mask[k]; f.r[I.dst + k] = m < 0 ? cv(0) : (unsigned)m < I.ops[0].n ? get(f, I.ops[0], m) : get(f, I.ops[1], m - I.ops[0].n); } f.ip++; break;
    case I_FREEZE: for (unsigned k = 0; k < I.nd; k++) f.r[I.dst + k] = get(f, I.ops[0], k); f.ip++; break;
    case I_NOP: f.ip++; break;
    case I_CMPXCHG: { V old[4]; V a = get(f, I.ops[0]); loadAgg(s, a, I.ti, old); unsigned w = I.ti->leaves[0].w; V eq = cmpV(LLVMIntEQ, old[0], get(f, I.ops[1]), w); bool b = eq.e ? decide(s, eq.e) : eq.c; if (b) { V nv = get(f, I.ops[2]); storeAgg(s, a, I.ti, &nv); } f.r[I.dst] = old[0]; f.r[I.dst + 1] = cv(b); f.ip++; break; }
    case I_RMW: { V old[4]; V a = get(f, I.ops[0]), b = get(f, I.ops[1]); loadAgg(s, a, I.ti, old); unsigned w = I.ti->leaves[0].w; V n;
      switch (I.sub) { case LLVMAtomicRMWBinOpXchg: n = b; break; case LLVMAtomicRMWBinOpAdd: n = binV(ADD, old[0], b, w); break; case LLVMAtomicRMWBinOpSub: n = binV(SUB, old[0], b, w); break; case LLVMAtomicRMWBinOpAnd: n = binV(AND, old[0], b, w); break; case LLVMAtomicRMWBinOpOr: n = binV(OR, old[0], b, w); break; case LLVMAtomicRMWBinOpXor: n = binV(XOR, old[0], b, w); break; default: endPath(E_UNSUP, "atomicrmw op"); }
      storeAgg(s, a, I.ti, &n); f.r[I.dst] = old[0]; f.ip++; break; }
    case I_UNREACH: endPath(E_UNREACH, "unreachable executed in " + f.fn->name);
    default: { char* t = LLVMPrintValueToString(I.ref); std::string m = t; LLVMDisposeMessage(t); endPath(E_UNSUP, m + " in " + f.fn->name); }
  }
}
