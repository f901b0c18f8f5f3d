// driver
static u64 pathNo = 0;
static pid_t rootPid;
static inline bool timeUp() { if (SH->stop) return true; if (kill(rootPid, 0)) _exit(9); double t = now(); if (t - t0clock > optTime || (SH->tviol && t - SH->tviol > optGrace)) { SH->stop = 1; return true; } return false; }
static void finish(State& s, EndKind k, const std::string& msg) {
  u64 no = __sync_fetch_and_add(&SH->paths, 1); __sync_fetch_and_add(&SH->ends[k], 1);
  if (s.model.size() < s.nvars) s.model.resize(s.nvars);
  if (k == E_OK || k == E_EXIT) for (u32 c : s.covers) if (c < 256) __sync_fetch_and_add(&SH->cover[c], 1);
  bool viol = k == E_MEM || k == E_UNREACH || k == E_ABORT || ((k == E_PANIC || k == E_ALLOC) && !optPanicOk);
  if (viol) report(s, k, msg, s.model);
  else if (k == E_INCOMPLETE || k == E_UNSUP) { __sync_fetch_and_add(&SH->incomplete, 1); if (++violSeen["inc" + msg] <= 3) emit("{\"t\":\"incomplete\",\"msg\":" + jstr(msg) + ",\"stack\":" + stackStr(s) + "}"); }
  else if (k == E_OK || k == E_PANIC || k == E_EXIT) {
    // sample completed paths for native replay: powers of two plus a seeded sieve
    u64 h = (no + 1) * 0x9E3779B97F4A7C15ull + optSeed * 0xD1B54A32D192ED03ull; h ^= h >> 31;
    bool take = (no & (no + 1)) == 0 || h % 97 == 0; if (take && __sync_fetch_and_add(&SH->samples, 1) < (u64)optSamples)
      emit("{\"t\":\"sample\",\"end\":\"" + std::string(endNames[k]) + "\",\"msg\":" + jstr(msg) + ",\"inputs\":" + inputsJson(s, s.model) + ",\"obs\":" + obsJson(s, s.model) + "}");
  }
}
static void runState(State* sp) {
  State& s = *sp; u64 st0 = s.steps;
  try { if (!s.pend.empty()) settle(s); for (;;) {
      for (int i = 0; i < 4096; i++) { 
        if (optTrace) { Frame& f = s.fr.back(); char* t = LLVMPrintValueToString(f.fn->bbs[f.bb].in[f.ip].ref); fprintf(stderr, "%s | %s\n", f.fn->name.c_str(), t); LLVMDisposeMessage(t); }
        step(s); s.steps++; if (!s.decided.empty()) s.decided.clear(); }
      if (s.steps > optMaxSteps) endPath(E_INCOMPLETE, "step limit"); if (timeUp()) endPath(E_INCOMPLETE, "time limit"); } }
  catch (PathEnd& e) { stSteps += s.steps - st0; if (e.k != E_INFEASIBLE) finish(s, e.k, e.msg); else __sync_fetch_and_add(&SH->ends[E_INFEASIBLE], 1); }
  delete sp;
}
static void emitStats() {
  for (auto& p : fns) if (p.second->calls && p.second->mine) stFns.insert(p.second->name);
  std::string o = "{\"t\":\"stats\",\"steps\":" + std::to_string(stSteps) + ",\"forks\":" + std::to_string(stForks) + ",\"queries\":" + std::to_string(g_sstats.queries) + ",\"sat\":" + std::to_string(g_sstats.sat) + ",\"unsat\":" + std::to_string(g_sstats.unsat) + ",\"unknown\":" + std::to_string(g_sstats.unknown) + ",\"cachehits\":" + std::to_string(g_sstats.cacheHits) + ",\"solver_s\":" + std::to_string(g_sstats.secs) + ",\"maxq_s\":" + std::to_string(g_sstats.maxq) + ",\"fns\":[";
  bool f = true; for (auto& n : stFns) { if (!f) o += ","; f = false; o += jstr(n); } emit(o + "]}");
}
static bool trySplit() { // fork a worker taking half of the work list
  if (optJobs <= 1 || work.size() < 2) return false;
  for (;;) { u64 a = SH->active; if (a >= (u64)optJobs) return false; if (__sync_bool_compare_and_swap(&SH->active, a, a + 1)) break; }
  fflush(stdout); pid_t p = fork(); if (p < 0) { __sync_fetch_and_sub(&SH->active, 1); return false; }
  size_t h = (work.size() + 1) / 2; std::vector<State*> mine;
  // alternate states so that both halves get shallow and deep ones
  std::vector<State*> x, y; for (size_t i = 0; i < work.size(); i++) (i & 1 ? x : y).push_back(work[i]); (void)h;
  if (p == 0) { work.swap(x); for (auto q : y) delete q; stSteps = stForks = 0; g_sstats = SolverStats(); stFns.clear(); for (auto& q : fns) q.second->calls = 0; return true; }
  work.swap(y); for (auto q : x) delete q; return false;
}
static bool isRoot = true;
static void* mainThread(void* arg) {
  (void)arg; pid_t root = getpid(); u64 since = 0;
  while (!work.empty()) {
    if ((++since & 3) == 0 || work.size() > 8) if (trySplit()) isRoot = false;
    if (SH->paths > optMaxPaths || timeUp()) { __sync_fetch_and_add(&SH->incomplete, work.size()); emit("{\"t\":\"incomplete\",\"msg\":\"path or time limit, " + std::to_string(work.size()) + " states left\",\"stack\":[]}"); for (auto q : work) delete q; work.clear(); break; }
    State* s = work.back(); work.pop_back(); runState(s);
  }
  emitStats(); __sync_fetch_and_sub(&SH->active, 1);
  if (getpid() != root || !isRoot) { while (waitpid(-1, nullptr, 0) > 0) {} _exit(0); }
  return nullptr;
}
int main(int argc, char** argv) {
  std::string ir, entry; t0clock = now(); rootPid = getpid();
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--jobs") optJobs = atoi(nx().c_str()); else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--max-steps") optMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--max-paths") optMaxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--alloc") optAlloc = strtoull(nx().c_str(), 0, 10); else if (a == "--fmt-stub") optFmtStub = true; else if (a == "--stdout") optStdout = true; else if (a == "--max-viol-total") optStopViol = strtoull(nx().c_str(), 0, 10); else if (a == "--param") { std::string v = nx(); size_t q = v.find('='); params[atoi(v.c_str())] = strtoull(v.c_str() + q + 1, 0, 10); } else if (a == "--panic-ok") optPanicOk = true; else if (a == "--seed") optSeed = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") optSamples = atoi(nx().c_str()); else if (a == "--trace") optTrace = true; else if (a == "--solver-timeout") g_solverTimeoutMs = atoi(nx().c_str()); else if (a == "--dump-unknown") optDumpQ = nx(); else ir = a; }
  LC = LLVMContextCreate(); LLVMMemoryBufferRef mb; char* err = nullptr; if (LLVMCreateMemoryBufferWithContentsOfFile(ir.c_str(), &mb, &err)) { fprintf(stderr, "cannot read %s: %s\n", ir.c_str(), err); return 3; }
  if (LLVMParseIRInContext(LC, mb, &LM, &err)) { fprintf(stderr, "parse error: %s\n", err); return 3; }
  DL = LLVMGetModuleDataLayout(LM); gval.push_back(nullptr);
  for (auto v = LLVMGetFirstFunction(LM); v; v = LLVMGetNextFunction(v)) { gid[v] = gval.size(); gval.push_back(v); }
  for (auto v = LLVMGetFirstGlobal(LM); v; v = LLVMGetNextGlobal(v)) { gid[v] = gval.size(); gval.push_back(v); }
  heapBase = gval.size(); gobj.assign(heapBase, nullptr);
  if (LLVMValueRef e = LLVMGetNamedFunction(LM, "ksym_rt_empty_string")) { emptyString = getFn(e); emptyString->h = nullptr; }
  if (LLVMValueRef e = LLVMGetNamedFunction(LM, "ksym_rt_fmt_sym")) { symFmt = getFn(e); symFmt->h = nullptr; }
  if (LLVMValueRef e = LLVMGetNamedFunction(LM, "ksym_rt_fmt_hex8")) { hexFmt = getFn(e); hexFmt->h = nullptr; }
  LLVMValueRef ev = LLVMGetNamedFunction(LM, entry.c_str()); if (!ev) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)SH, 0, sizeof(Shared)); SH->active = 1;
  if (!optOut.empty()) { outFd = open(optOut.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (outFd < 0) { perror("out"); return 3; } }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  State* s = new State(); Fn* f = getFn(ev); if (!f->decoded) decode(f); s->fr.emplace_back(); Frame& fr = s->fr.back(); fr.fn = f; fr.bb = 0; fr.prev = -1; fr.ip = 0; fr.r.resize(f->nslots); fr.dst = -1; fr.nd = 0; work.push_back(s);
  double tl = now(); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30); pthread_t th; pthread_create(&th, &at, mainThread, nullptr); pthread_join(th, nullptr);
  int st, bad = 0; pid_t p; while ((p = waitpid(-1, &st, 0)) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; }
  std::string o = "{\"t\":\"summary\",\"entry\":" + jstr(entry) + ",\"paths\":" + std::to_string(SH->paths) + ",\"incomplete\":" + std::to_string(SH->incomplete) + ",\"crashed\":" + std::to_string(bad) + ",\"violations\":" + std::to_string(SH->nviol) + ",\"wall_s\":" + std::to_string(now() - t0clock) + ",\"load_s\":" + std::to_string(tl - t0clock) + ",\"covers\":{";
  bool first = true; for (int i = 0; i < 256; i++) if (SH->cover[i]) { if (!first) o += ","; first = false; o += "\"" + std::to_string(i) + "\":" + std::to_string(SH->cover[i]); } o += "},\"ends\":{"; first = true;
  for (int i = 0; i < 11; i++) if (SH->ends[i]) { if (!first) o += ","; first = false; o += "\"" + std::string(endNames[i]) + "\":" + std::to_string(SH->ends[i]); } emit(o + "}}");
  fflush(stdout); _exit(bad ? 4 : SH->nviol ? 1 : SH->incomplete ? 2 : 0);
}
