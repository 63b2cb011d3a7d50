// models of libc / OS / runtime functions and the kh_* harness intrinsics
static std::map<std::string, Handler> HN;
static std::string gstr(Engine &E, u64 p, u64 n) { std::string s; for (u64 i = 0; i < n; i++) { Expr *e = M.symAt(p + i); s += e ? (char)E.concretize(e) : *(char*)(p + i); } return s; }
static std::string gcstr(Engine &E, u64 p) { std::string s; for (u64 i = 0; i < 65536; i++) { Expr *e = M.symAt(p + i); char c = e ? (char)E.concretize(e) : *(char*)(p + i); if (!c) break; s += c; } return s; }
static std::map<int, u64> errnoAddrs;
static u64 errnoOf(Thread *t) { u64 &a = errnoAddrs[t->id]; if (!a) { a = M.bump(16, 16); } return a; }
static void setErrno(Engine &E, int e) { *(int*)errnoOf(E.T) = e; }
static u64 fail(Engine &E, int e) { setErrno(E, e); return (u64)-1; }
#define H(name) HN[name] = [](Engine &E, Slot *r, Slot *a, int n, const Inst &in)
static std::string normPath(const std::string &p) { std::vector<std::string> v; size_t i = 0; while (i <= p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); std::string c = p.substr(i, j - i); if (c == "..") { if (!v.empty()) v.pop_back(); } else if (!c.empty() && c != ".") v.push_back(c); i = j + 1; } std::string o; for (auto &c : v) o += "/" + c; return o.empty() ? "/" : o; }
static int findFile(Engine &E, const std::string &p) { for (size_t i = 0; i < E.files.size(); i++) if (!E.files[i].removed && E.files[i].path == p) return i; return -1; }
static std::string parentOf(const std::string &p) { size_t s = p.rfind('/'); return s == 0 || s == std::string::npos ? "/" : p.substr(0, s); }
static bool dirExists(Engine &E, const std::string &p) { return p == "/" || p == "/scratch" || p == "/tmp" || E.dirs.count(p); }
static int lookErr(Engine &E, const std::string &p) { for (std::string q = parentOf(p); q != "/"; q = parentOf(q)) if (findFile(E, q) >= 0) return ENOTDIR; return ENOENT; }
static std::string atPath(Engine &E, int fd, const std::string &p) { return p.empty() || p[0] == '/' || fd == -100 || fd < 0 || fd >= (int)E.fds.size() ? normPath(p) : normPath(E.fds[fd].path + "/" + p); }
static bool dirEmpty(Engine &E, const std::string &p) { std::string pre = p + "/"; for (auto &f : E.files) if (!f.removed && f.path.compare(0, pre.size(), pre) == 0) return false; for (auto &d : E.dirs) if (d.compare(0, pre.size(), pre) == 0) return false; return true; }
static void fileGrow(Engine &E, VFile &f, u64 n) { if (n > f.cap) { u64 c = std::max<u64>(n * 2, 4096); u64 nb = M.alloc(c, 16); memset((void*)nb, 0, c); if (f.buf) { M.copy(nb, f.buf, f.len); M.free(f.buf); } f.buf = nb; f.cap = c; } }
static void fillStat(Engine &E, u64 p, int fi, bool dir) { struct stat st; memset(&st, 0, sizeof st); st.st_mode = dir ? 040755 : 0100644; st.st_nlink = 1; st.st_ino = fi + 10; st.st_size = dir ? 4096 : E.files[fi].len; st.st_blksize = 4096; st.st_blocks = (st.st_size + 511) / 512; memcpy((void*)p, &st, sizeof st); M.clearSym(p, sizeof st); }
static int newFd(Engine &E) { for (size_t i = 3; i < E.fds.size(); i++) if (!E.fds[i].used) return i; if (E.fds.size() < 3) E.fds.resize(3); E.fds.push_back({}); return E.fds.size() - 1; }
// the running thread may be preempted here
static void preempt(Engine &E) { E.preemptAt(); }
void Engine::preemptAt() { Engine &E = *this; if (!E.preemptBudget) return; Thread *c[16]; int n = 1, m = E.threads.size(); for (int i = 1; i < m && n < 15; i++) { Thread *t = E.threads[(E.cur + i) % m]; if (t->st == T_RUN) c[n++] = t; } int k = E.decide(n); if (k) { E.schedHint = c[k]; E.resched = true; } }
static void block(Engine &E, TStat st, bool hasDl, u64 dl) { E.T->st = st; E.T->hasDeadline = hasDl; E.T->deadline = dl; E.resched = true; }
static const u64 FLOCK_WAIT = 0xF10C000000000000ull; // futexAddr of a thread waiting for a file lock: | its descriptor
static void unlockFile(Engine &E, int fi) { E.files[fi].locked = -1; for (Thread *t : E.threads) if (t->st == T_FUTEX && (t->futexAddr & 0xFFFF000000000000ull) == FLOCK_WAIT) { u64 fd = t->futexAddr & 0xFFFFFFFF; if (E.fds[fd].used && E.fds[fd].file == fi) { E.files[fi].locked = fd; t->futexAddr = 0; t->st = T_RUN; return; } } }
static u64 fsOpen(Engine &E, const std::string &raw, int flags) {
  std::string p = normPath(raw); int fi = findFile(E, p); bool dir = dirExists(E, p);
  if (fi < 0 && !dir) { if (!(flags & 0100)) return fail(E, lookErr(E, p)); if (!dirExists(E, parentOf(p))) return fail(E, lookErr(E, p)); VFile f; f.path = p; E.files.push_back(f); fi = E.files.size() - 1; }
  else if ((flags & 0300) == 0300) return fail(E, EEXIST);
  if (dir && (flags & 3)) return fail(E, EISDIR);
  if (!dir && (flags & 0200000)) return fail(E, ENOTDIR);
  if (fi >= 0 && (flags & 01000)) E.files[fi].len = 0;
  int fd = newFd(E); E.fds[fd] = VFd{fi, 0, flags, true, p}; return fd;
}
static void syncFile(Engine &E, VFile &f) { if (f.len > f.slen || !f.sbuf) f.sbuf = M.alloc(f.cap ? f.cap : 16, 16); if (f.len) M.copy(f.sbuf, f.buf, f.len); f.slen = f.len; }
// called before every change to the files: 0 go on; 1 crashed (the handler returns); 2 crash after half of a write
static int crashPoint(Engine &E, bool write) {
  if (!E.crashing || E.crashHold) return 0; u64 i = E.crashOps++; if (!E.branch(X.Eq(X.Extract(E.crashE, 2, 62), X.C(62, i)))) return 0;
  u64 k = E.concretize(X.Extract(E.crashE, 0, 2)); if (k == 1 && write) return 2; return k == 1 ? 1 : 1 + (k > 1 ? (int)k * 16 : 0);
}
static void crashNow(Engine &E, int how) { // how / 16: 2 everything not synced is lost, 3 except in the file written last
  E.crashing = false; how /= 16;
  for (size_t n = 0; n < E.files.size(); n++) { VFile &f = E.files[n]; f.locked = -1; if (how >= 2 && !f.removed && !(how == 3 && (int)n == E.lastWritten)) { if (f.slen) M.copy(f.buf, f.sbuf, f.slen); f.len = f.slen; } }
  for (size_t i = 3; i < E.fds.size(); i++) E.fds[i].used = false;
  for (Thread *t : E.threads) if (t != E.crashThread) { t->st = T_DONE; }
  Thread *t = E.crashThread; t->frames.resize(E.crashDepth); t->sp = (Slot*)E.crashSp; t->gsp = E.crashGsp; t->st = T_RUN; t->futexAddr = 0; if (E.crashDst >= 0) t->frames.back().base[E.crashDst] = Engine::S(1);
  E.T = t; for (size_t i = 0; i < E.threads.size(); i++) if (E.threads[i] == t) E.cur = i; E.suppressRet = true; E.resched = false;
}
#define CRASHABLE do { int c_ = crashPoint(E, false); if (c_) { crashNow(E, c_); return; } } while (0)
static void clockRead(Engine &E, u64 ts, bool real) {
  if (real && E.clockSymSet) { E.storeMem(ts, E.clockSec, 64); E.storeMem(ts + 8, E.clockNsec, 64); return; }
  u64 v = real ? E.clockRealNs : E.clockMonoNs; *(u64*)ts = v / 1000000000ull; *(u64*)(ts + 8) = v % 1000000000ull; M.clearSym(ts, 16); E.clockRealNs += E.clockStep; E.clockMonoNs += E.clockStep;
}
static void doPanic(Engine &E, Slot *a, int n) {
  std::string loc = "?";
  for (int i = 0; i < n; i++) { if (a[i].e) continue; u64 p = a[i].lo, b, sz; if (!M.ok(p, 24) || !M.findObj(p, b, sz) || p + 24 > b + sz) continue; u64 sp = *(u64*)p, sl = *(u64*)(p + 8); if (!M.ok(sp, sl) || sl > 300 || sl < 4) continue; std::string s((char*)sp, sl); if (s.size() > 3 && s.substr(s.size() - 3) == ".rs") { loc = s + ":" + std::to_string(*(u32*)(p + 16)); break; } }
  E.violation("panic at " + loc); E.endPath("ok");
}
static void memcmpH(Engine &E, Slot *r, Slot *a, bool ordered) {
  u64 n = E.conc(a[2]), p = E.conc(a[0]), q = E.conc(a[1]);
  if (!n) { r[0] = Engine::S(0); return; }
  if (!M.ok(p, n) || !M.ok(q, n)) { E.violation("memory error in memcmp"); E.endPath("ok"); }
  if (!M.hasSym(p, n) && !M.hasSym(q, n)) { int c = memcmp((void*)p, (void*)q, n); r[0] = Engine::S((u32)(c < 0 ? -1 : c > 0 ? 1 : 0)); return; }
  E.markSym();
  if (ordered) { Expr *res = X.C(32, 0); 
    // chunked big-endian comparison, from the last chunk to the first
    u64 i = n; while (i > 0) { u64 c = i % 8 ? i % 8 : 8; u64 s = i - c; Expr *x = M.byteE(p + s), *y = M.byteE(q + s); for (u64 j = 1; j < c; j++) { x = X.Concat(x, M.byteE(p + s + j)); y = X.Concat(y, M.byteE(q + s + j)); }
      Expr *lt = X.Ult(x, y), *eq = X.Eq(x, y); res = X.Ite(eq, res, X.Ite(lt, X.C(32, 0xffffffff), X.C(32, 1))); i = s; }
    r[0] = E.fromE(res); }
  else { Expr *eq = X.T(); for (u64 i = 0; i < n; i++) eq = X.And(eq, X.Eq(M.byteE(p + i), M.byteE(q + i))); r[0] = E.fromE(X.Zext(X.Not(eq), 32)); }
}
static void symInput(Engine &E, u64 p, u64 n, const std::string &name) {
  if (E.inputs.size() > 4000) E.incomplete("too many inputs");
  Input in; in.name = name;
  if (getenv("KH_CONC")) { // debugging: the inputs of a replay file instead of symbols
    static std::vector<std::string> vals; static bool loaded = false; if (!loaded) { loaded = true; std::ifstream f(getenv("KH_CONC")); std::string k, nm, v; std::string line; while (std::getline(f, line)) { std::istringstream is(line); is >> k; if (k != "in") continue; size_t eq = line.find('='); v = eq == std::string::npos ? "" : line.substr(eq + 1); vals.push_back(v); } }
    std::string v = E.inputs.size() < vals.size() ? vals[E.inputs.size()] : ""; for (u64 i = 0; i < n; i++) { unsigned b = i * 2 + 1 < v.size() ? std::stoul(v.substr(i * 2, 2), 0, 16) : 0; M.clearSym(p + i, 1); *(unsigned char*)(p + i) = b; in.bytes.push_back(X.C(8, b)); }
    E.inputs.push_back(in); return; }
  if (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) { Expr *v = X.newVar(n * 8); for (u64 i = 0; i < n; i++) { Expr *b = X.Extract(v, i * 8, 8); M.setSym(p + i, b); in.bytes.push_back(b); } }
  else for (u64 i = 0; i < n; i++) { Expr *v = X.newVar(8); M.setSym(p + i, v); in.bytes.push_back(v); }
  E.inputs.push_back(in);
}
static void label(Engine &E, const std::string &s) { // shared label table
  for (int i = 0; i < SH->nlab; i++) if (s == SH->labels[i]) { __sync_add_and_fetch(&SH->labCount[i], 1); return; }
  while (__sync_lock_test_and_set(&SH->fileLock, 1)) usleep(10);
  int f = -1; for (int i = 0; i < SH->nlab; i++) if (s == SH->labels[i]) f = i;
  if (f < 0 && SH->nlab < MAXLAB) { strncpy(SH->labels[SH->nlab], s.c_str(), 95); f = SH->nlab; __sync_synchronize(); SH->nlab++; }
  __sync_lock_release(&SH->fileLock); if (f >= 0) __sync_add_and_fetch(&SH->labCount[f], 1);
}
static void countLabel(const std::string &s) { label(*(Engine*)0, s); }
static void doCheck(Engine &E, Slot c, const std::string &msg) {
  __sync_add_and_fetch(&SH->checks, 1);
  if (!c.e) { if (!c.lo) { E.violation(msg); E.endPath("ok"); } return; }
  __sync_add_and_fetch(&SH->symChecks, 1);
  Expr *b = c.e->w == 1 ? c.e : X.Not(X.Eq(c.e, X.C(c.e->w, 0))); if (ExprMgr::isC(b)) { if (!b->c) { E.violation(msg); E.endPath("ok"); } return; }
  Expr *nb = X.Not(b); std::vector<u128> m; int q = X.eval(nb) ? 1 : E.query(nb, m);
  if (X.eval(nb)) m = X.model;
  if (q == 1) { std::vector<u128> save = X.model; X.model = m; X.stamp++; E.violation(msg); X.model = save; X.stamp++;
    if (X.eval(b)) E.addConstraint(b); else { int k = E.query(b, m); if (k != 1) E.endPath("ok"); X.model = m; X.stamp++; E.addConstraint(b); } E.noSample = false; }
  else if (q < 0) { E.report("incomplete", "solver unknown on check: " + msg); __sync_add_and_fetch(&SH->incomplete, 1); }
}
static void doAssume(Engine &E, Slot c) {
  if (!c.e) { if (!c.lo) E.endPath("assume"); return; }
  Expr *b = c.e->w == 1 ? c.e : X.Not(X.Eq(c.e, X.C(c.e->w, 0))); if (ExprMgr::isC(b)) { if (!b->c) E.endPath("assume"); return; }
  if (X.eval(b)) { E.addConstraint(b); return; }
  std::vector<u128> m; int q = E.query(b, m); if (q == 0) E.endPath("assume"); if (q < 0) E.incomplete("solver unknown on assume"); X.model = m; X.stamp++; E.addConstraint(b);
}
static void removeFile(Engine &E, int fi) { E.files[fi].removed = true; }
static void initHandlers() {
  auto memcpyH = [](Engine &E, Slot *r, Slot *a, int n, const Inst &in) { u64 len = E.conc(a[2]); u64 d = E.conc(a[0]), s = E.conc(a[1]); r[0] = Engine::S(d); if (!len) return; if (!M.ok(d, len) || !M.ok(s, len)) { E.violation("memory error in memcpy"); E.endPath("ok"); } M.copy(d, s, len); };
  HN["memcpy"] = HN["memmove"] = memcpyH;
  H("memset") { u64 len = E.conc(a[2]), d = E.conc(a[0]); r[0] = Engine::S(d); if (!len) return; if (!M.ok(d, len)) { E.violation("memory error in memset"); E.endPath("ok"); } if (a[1].e) { Expr *b = a[1].e->w == 8 ? a[1].e : X.Extract(a[1].e, 0, 8); for (u64 i = 0; i < len; i++) { if (ExprMgr::isC(b)) { *(u8*)(d + i) = b->c; M.setSym(d + i, 0); } else M.setSym(d + i, b); } return; } memset((void*)d, (int)a[1].lo, len); if (M.hasSym(d, len)) M.clearSym(d, len); };
  H("memcmp") { memcmpH(E, r, a, true); }; H("bcmp") { memcmpH(E, r, a, false); };
  H("memchr") { u64 p = E.conc(a[0]), len = E.conc(a[2]); Expr *c = X.Extract(E.ex(a[1], 32), 0, 8); for (u64 i = 0; i < len; i++) { if (E.branch(X.Eq(M.byteE(p + i), c))) { r[0] = Engine::S(p + i); return; } } r[0] = Engine::S(0); };
  H("memrchr") { u64 p = E.conc(a[0]), len = E.conc(a[2]); Expr *c = X.Extract(E.ex(a[1], 32), 0, 8); for (u64 i = len; i-- > 0;) { if (E.branch(X.Eq(M.byteE(p + i), c))) { r[0] = Engine::S(p + i); return; } } r[0] = Engine::S(0); };
  H("strlen") { u64 p = E.conc(a[0]); u64 i = 0; while (E.branch(X.Not(X.Eq(M.byteE(p + i), X.C(8, 0))))) i++; r[0] = Engine::S(i); };
  H("malloc") { r[0] = Engine::S(M.alloc(E.conc(a[0]), 16)); };
  H("calloc") { u64 s = E.conc(a[0]) * E.conc(a[1]); u64 p = M.alloc(s, 16); if (p) { memset((void*)p, 0, s); M.clearSym(p, s); } r[0] = Engine::S(p); };
  H("free") { M.free(E.conc(a[0])); };
  H("realloc") { u64 p = E.conc(a[0]), s = E.conc(a[1]); if (!p) { r[0] = Engine::S(M.alloc(s, 16)); return; } u64 o = M.sizeOf(p); if (s <= o || (((Chunk*)(p - 16))->magic < 200 && s <= Mem::clsSize(((Chunk*)(p - 16))->magic))) { ((Chunk*)(p - 16))->size = s; r[0] = Engine::S(p); return; } u64 q = M.alloc(s, 16); M.copy(q, p, o); M.free(p); r[0] = Engine::S(q); };
  H("posix_memalign") { u64 pp = E.conc(a[0]), al = E.conc(a[1]), s = E.conc(a[2]); u64 p = M.alloc(s, al); E.storeMem(pp, Engine::S(p), 64); r[0] = Engine::S(0); };
  H("__errno_location") { r[0] = Engine::S(errnoOf(E.T)); };
  H("abort") { E.violation("abort() called"); E.endPath("ok"); };
  H("exit") { E.violation("exit() called"); E.endPath("ok"); }; HN["_exit"] = HN["exit"];
  // harness intrinsics
  H("kh_sym") { u64 p = E.conc(a[0]), len = E.conc(a[1]); symInput(E, p, len, gstr(E, E.conc(a[2]), E.conc(a[3]))); };
  H("kh_choose") { u64 k = E.conc(a[0]); u64 t = M.bump(8, 8); *(u64*)t = 0; symInput(E, t, 8, "choice"); Slot s = E.loadMem(t, 64); M.clearSym(t, 8); if (k == 0) E.endPath("assume"); if (!s.e) { if (s.lo >= k) E.endPath("assume"); r[0] = s; return; } E.addConstraint(X.Ult(s.e, X.C(64, k))); r[0] = Engine::S((u64)E.concretize(s.e)); };
  H("kh_assume") { doAssume(E, a[0]); };
  H("kh_check") { doCheck(E, a[0], gstr(E, E.conc(a[1]), E.conc(a[2]))); };
  H("kh_check_known") { std::string save = E.knownRegion; E.knownRegion = gstr(E, E.conc(a[3]), E.conc(a[4])); doCheck(E, a[0], gstr(E, E.conc(a[1]), E.conc(a[2]))); E.knownRegion = save; };
  H("kh_region") { E.knownRegion = gstr(E, E.conc(a[0]), E.conc(a[1])); };
  H("kh_reach") { label(E, gstr(E, E.conc(a[0]), E.conc(a[1]))); };
  H("kh_param") { r[0] = Engine::S(O.params[E.conc(a[0]) & 31]); };
  H("kh_symbolic") { r[0] = Engine::S(1); };
  H("kh_u64") { r[0] = Engine::S(E.conc(a[0])); };
  H("kh_is_sym") { r[0] = Engine::S(a[0].e != nullptr); };
  H("kh_print") { std::string s = gstr(E, E.conc(a[0]), E.conc(a[1])); fprintf(stderr, "[%d] %s\n", (int)getpid(), s.c_str()); };
  H("kh_clock_set") { E.clockSymSet = true; E.clockSec = a[0]; E.clockNsec = a[1]; };
  H("kh_clock_auto") { E.clockSymSet = false; };
  H("kh_clock_advance") { u64 d = E.conc(a[0]); E.clockRealNs += d; E.clockMonoNs += d; };
  H("kh_fork_all") { u64 p = E.conc(a[0]), len = E.conc(a[1]); for (u64 i = 0; i < len; i++) if (Expr *e = M.symAt(p + i)) { u8 v = (u8)E.concretize(e); *(u8*)(p + i) = v; M.setSym(p + i, nullptr); } };
  H("kh_or") { r[0] = E.binop(O_OR, a[0], a[1], 8); }; H("kh_and") { r[0] = E.binop(O_AND, a[0], a[1], 8); };
  H("kh_settle") { // let every other thread run until it blocks
    bool other = false; for (Thread *t : E.threads) if (t != E.T && t->st == T_RUN) other = true; r[0] = Engine::S(other); if (other) E.resched = true; };
  H("kh_sleep") { u64 ns = E.conc(a[0]); block(E, T_SLEEP, true, E.clockMonoNs + ns); };
  H("kh_skip") { E.endPath("assume"); };
  H("kh_fs_snapshot") { E.snaps.push_back(E.files); for (auto &f : E.snaps.back()) if (f.buf) { u64 nb = M.alloc(f.cap, 16); M.copy(nb, f.buf, f.len); f.buf = nb; } E.snapDirs.push_back(E.dirs); r[0] = Engine::S(E.snaps.size() - 1); };
  H("kh_schedules") { E.preemptBudget = E.conc(a[0]); if (E.preemptBudget) E.newSchedSym(); };
  H("kh_crash_run") { // runs a function that may be cut short at any change to the files
    u64 fa = E.conc(a[0]); Func *f = E.fnByAddr(fa); if (!f) E.incomplete("kh_crash_run: bad fn"); u64 t = M.bump(8, 8); symInput(E, t, 8, "crash"); E.crashE = E.ex(E.loadMem(t, 64), 64); M.clearSym(t, 8);
    E.acks = 0; E.torn = 0; E.crashHold = false; E.crashing = true; E.crashOps = 0; E.crashThread = E.T; E.crashDepth = E.T->frames.size(); E.crashSp = (u64)E.T->sp; E.crashGsp = E.T->gsp; E.crashDst = in.d; E.lastWritten = -1; for (auto &f : E.files) syncFile(E, f);
    if (in.d >= 0) E.T->frames.back().base[in.d] = Engine::S(0); E.pushFrame(E.T, f, &a[1], 1, -1); E.suppressRet = true; };
  H("kh_crash_hold") { E.crashHold = E.conc(a[0]) & 1; };
  H("kh_crash_end") { E.crashing = false; };
  H("kh_ack") { E.acks++; }; H("kh_acks") { r[0] = Engine::S(E.acks); }; H("kh_torn") { r[0] = Engine::S(E.torn); };
  // panics
  // time
  H("clock_gettime") { u64 c = E.conc(a[0]); clockRead(E, E.conc(a[1]), c == 0 || c == 5); r[0] = Engine::S(0); };
  H("time") { r[0] = Engine::S(E.clockRealNs / 1000000000ull); };
  H("nanosleep") { u64 p = E.conc(a[0]); u64 ns = E.loadMem(p, 64).lo * 1000000000ull + E.loadMem(p + 8, 64).lo; r[0] = Engine::S(0); block(E, T_SLEEP, true, E.clockMonoNs + ns); };
  H("clock_nanosleep") { u64 fl = E.conc(a[1]), p = E.conc(a[2]); u64 ns = E.loadMem(p, 64).lo * 1000000000ull + E.loadMem(p + 8, 64).lo; r[0] = Engine::S(0); block(E, T_SLEEP, true, fl & 1 ? ns : E.clockMonoNs + ns); };
  H("sched_yield") { r[0] = Engine::S(0); E.resched = true; };
  H("usleep") { r[0] = Engine::S(0); block(E, T_SLEEP, true, E.clockMonoNs + E.conc(a[0]) * 1000); };
  // threads
  H("pthread_create") { u64 tp = E.conc(a[0]); u64 start = E.conc(a[2]); Thread *me = E.T; Thread *t = E.newThread(); Func *f = E.fnByAddr(start); if (!f) E.incomplete("pthread_create: bad fn"); E.pushFrame(t, f, &a[3], 1, -1); E.storeMem(tp, Engine::S(t->id + 1), 64); r[0] = Engine::S(0); (void)me; };
  H("pthread_join") { u64 id = E.conc(a[0]) - 1; r[0] = Engine::S(0); if (id >= E.threads.size()) { r[0] = Engine::S(3); return; } if (E.threads[id]->st != T_DONE) { E.T->joinTid = id; block(E, T_JOIN, false, 0); } };
  H("pthread_detach") { r[0] = Engine::S(0); };
  H("pthread_self") { r[0] = Engine::S(E.T->id + 1); };
  H("pthread_key_create") { u64 k = E.nextKey++; *(u32*)E.conc(a[0]) = k; E.keyDtors[k] = E.conc(a[1]); r[0] = Engine::S(0); };
  H("pthread_key_delete") { r[0] = Engine::S(0); };
  H("pthread_setspecific") { E.T->keys[E.conc(a[0])] = E.conc(a[1]); r[0] = Engine::S(0); };
  H("pthread_getspecific") { auto it = E.T->keys.find(E.conc(a[0])); r[0] = Engine::S(it == E.T->keys.end() ? 0 : it->second); };
  auto zero = [](Engine &E, Slot *r, Slot *a, int n, const Inst &in) { r[0] = Engine::S(0); };
  for (const char *s : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_destroy", "pthread_mutex_init", "pthread_attr_init", "pthread_attr_setstacksize", "pthread_attr_destroy", "pthread_setname_np", "pthread_getattr_np", "sigaltstack", "sigaction", "munmap", "mprotect", "madvise", "pthread_atfork", "sched_getaffinity_", "signal", "prctl", "getauxval", "pthread_attr_setguardsize", "_Unwind_Backtrace", "getuid", "geteuid"}) HN[s] = zero;
  H("pthread_attr_getstack") { E.storeMem(E.conc(a[1]), Engine::S(E.T->glow), 64); E.storeMem(E.conc(a[2]), Engine::S(8 << 20), 64); r[0] = Engine::S(0); };
  H("pthread_attr_getguardsize") { E.storeMem(E.conc(a[1]), Engine::S(4096), 64); r[0] = Engine::S(0); };
  H("sched_getaffinity") { r[0] = Engine::S(fail(E, EINVAL)); };
  H("sysconf") { u64 k = E.conc(a[0]); r[0] = Engine::S(k == 30 ? 4096 : k == 83 || k == 84 ? 1 : k == 2 ? 100 : k == 70 || k == 69 ? 1024 : (u64)-1); };
  H("getpid") { r[0] = Engine::S(4242); };
  H("getenv") { r[0] = Engine::S(0); }; H("dlsym") { r[0] = Engine::S(0); };
  H("getrlimit") { u64 p = E.conc(a[1]); *(u64*)p = 1024; *(u64*)(p + 8) = 1024; r[0] = Engine::S(0); }; H("setrlimit") { r[0] = Engine::S(0); };
  H("mmap64") { u64 len = E.conc(a[1]); u64 p = M.bump(len, 4096); memset((void*)p, 0, len); r[0] = Engine::S(p); }; HN["mmap"] = HN["mmap64"];
  H("poll") { r[0] = Engine::S(0); };
  H("gnu_get_libc_version") { r[0] = Engine::S(0); };
  H("__xpg_strerror_r") { u64 b = E.conc(a[1]); strcpy((char*)b, "os error"); r[0] = Engine::S(0); };
  H("syscall") {
    u64 nr = E.conc(a[0]);
    if (nr == 202) { // futex
      u64 addr = E.conc(a[1]), o = E.conc(a[2]) & 127, flags = E.conc(a[2]); u64 val = n > 3 ? E.conc(a[3]) : 0;
      if (o == 0 || o == 9) {
        Slot c = E.loadMem(addr, 32); u64 cv = E.conc(c);
        if ((u32)cv != (u32)val) { r[0] = Engine::S(fail(E, EAGAIN)); return; }
        bool dl = false; u64 d = 0; u64 tp = n > 4 ? E.conc(a[4]) : 0; if (tp) { dl = true; u64 s = E.conc(E.loadMem(tp, 64)), ns = E.conc(E.loadMem(tp + 8, 64)); unsigned __int128 t = (unsigned __int128)s * 1000000000ull + ns; d = t > (u64)4e18 ? (u64)4e18 : (u64)t; if (o == 0) d += E.clockMonoNs; else if (flags & 256) d = d - E.clockRealNs + E.clockMonoNs; }
        E.T->futexAddr = addr; E.T->waitRet = in.d >= 0 ? in.d : -1; block(E, T_FUTEX, dl, d); r[0] = Engine::S(0); return;
      }
      if (o == 1 || o == 10) { u64 k = 0; for (Thread *t : E.threads) if (t->st == T_FUTEX && t->futexAddr == addr && k < val) { t->st = T_RUN; t->futexAddr = 0; k++; } r[0] = Engine::S(k); if (k) preempt(E); return; }
      if (o == 3 || o == 4) { u64 k = 0; u64 addr2 = E.conc(a[5]); for (Thread *t : E.threads) if (t->st == T_FUTEX && t->futexAddr == addr) { if (k < val) { t->st = T_RUN; t->futexAddr = 0; k++; } else t->futexAddr = addr2; } r[0] = Engine::S(k); return; }
      r[0] = Engine::S(fail(E, ENOSYS)); return;
    }
    if (nr == 318) { u64 p = E.conc(a[1]), len = E.conc(a[2]); for (u64 i = 0; i < len; i++) { E.rndState ^= E.rndState << 13; E.rndState ^= E.rndState >> 7; E.rndState ^= E.rndState << 17; *(u8*)(p + i) = (u8)(E.rndState >> 24); } M.clearSym(p, len); r[0] = Engine::S(len); return; }
    if (nr == 186) { r[0] = Engine::S(E.T->id + 1000); return; }
    if (nr == 24) { r[0] = Engine::S(0); E.resched = true; return; }
    r[0] = Engine::S(fail(E, ENOSYS));
  };
  // files
  H("open64") { u64 fl = E.conc(a[1]); std::string p = gcstr(E, E.conc(a[0])); if ((fl & 0100) && E.crashing) { std::string q = normPath(p); if (findFile(E, q) < 0 && !dirExists(E, q)) CRASHABLE; } r[0] = Engine::S((u32)fsOpen(E, p, (int)fl)); }; HN["open"] = HN["open64"];
  H("close") { u64 fd = (int)E.conc(a[0]); if (fd < E.fds.size() && E.fds[fd].used) { int fi = E.fds[fd].file; if (fi >= 0 && E.files[fi].locked == (int)fd) unlockFile(E, fi); E.fds[fd].used = false; } r[0] = Engine::S(0); };
  H("read") { u64 fd = (int)E.conc(a[0]), p = E.conc(a[1]), len = E.conc(a[2]); if (fd >= E.fds.size() || !E.fds[fd].used || E.fds[fd].file < 0) { r[0] = Engine::S(fail(E, EBADF)); return; } VFd &d = E.fds[fd]; VFile &f = E.files[d.file]; u64 k = d.pos >= f.len ? 0 : std::min(len, f.len - d.pos); if (k) M.copy(p, f.buf + d.pos, k); d.pos += k; r[0] = Engine::S(k); };
  H("write") { u64 fd = (int)E.conc(a[0]), p = E.conc(a[1]), len = E.conc(a[2]); if (fd == 1 || fd == 2) { if (O.verbose) { std::string s = gstr(E, p, len); fprintf(stderr, "%s", s.c_str()); } r[0] = Engine::S(len); return; } if (fd >= E.fds.size() || !E.fds[fd].used || E.fds[fd].file < 0) { r[0] = Engine::S(fail(E, EBADF)); return; } VFd &d = E.fds[fd]; VFile &f = E.files[d.file]; int cp = crashPoint(E, true); if (cp == 2) { len /= 2; E.torn = 1 + f.len; if (f.path.size() < 7 || (f.path.compare(f.path.size() - 7, 7, ".nebari") && f.path.find("_transactions") == std::string::npos)) E.torn = 1ull << 63 | E.torn; if (O.verbose) fprintf(stderr, "%llu torn write: %s at %llu, %llu bytes, length %llu\n", (unsigned long long)E.crashOps - 1, f.path.c_str(), (unsigned long long)d.pos, (unsigned long long)len, (unsigned long long)f.len); } else if (cp) { crashNow(E, cp); return; } E.lastWritten = d.file; if (d.flags & 02000) d.pos = f.len; fileGrow(E, f, d.pos + len); if (len) M.copy(f.buf + d.pos, p, len); d.pos += len; f.len = std::max(f.len, d.pos); r[0] = Engine::S(len); if (cp) crashNow(E, 1); };
  H("writev") { u64 fd = (int)E.conc(a[0]), v = E.conc(a[1]), k = E.conc(a[2]); u64 tot = 0; for (u64 i = 0; i < k; i++) { u64 p = E.conc(E.loadMem(v + i * 16, 64)), len = E.conc(E.loadMem(v + i * 16 + 8, 64)); if (!len) continue; Slot aa[3] = {Engine::S(fd), Engine::S(p), Engine::S(len)}; Slot rr[4]; bool was = E.crashing; HN["write"](E, rr, aa, 3, in); if (was && !E.crashing) return; tot += rr[0].lo; } r[0] = Engine::S(tot); };
  H("lseek64") { u64 fd = (int)E.conc(a[0]); i64 off = (i64)E.conc(a[1]); u64 wh = E.conc(a[2]); if (fd >= E.fds.size() || !E.fds[fd].used) { r[0] = Engine::S(fail(E, EBADF)); return; } VFd &d = E.fds[fd]; u64 base = wh == 0 ? 0 : wh == 1 ? d.pos : E.files[d.file].len; d.pos = base + off; r[0] = Engine::S(d.pos); };
  H("ftruncate64") { CRASHABLE; u64 fd = (int)E.conc(a[0]), len = E.conc(a[1]); VFile &f = E.files[E.fds[fd].file]; fileGrow(E, f, len); if (len > f.len) { memset((void*)(f.buf + f.len), 0, len - f.len); M.clearSym(f.buf + f.len, len - f.len); } f.len = len; r[0] = Engine::S(0); };
  H("fstat64") { u64 fd = (int)E.conc(a[0]); if (fd >= E.fds.size() || !E.fds[fd].used) { r[0] = Engine::S((u32)fail(E, EBADF)); return; } int fi = E.fds[fd].file; fillStat(E, E.conc(a[1]), fi, fi < 0); r[0] = Engine::S(0); }; HN["fstat"] = HN["fstat64"];
  H("stat64") { std::string p = normPath(gcstr(E, E.conc(a[0]))); int fi = findFile(E, p); if (fi < 0 && !dirExists(E, p)) { r[0] = Engine::S((u32)fail(E, ENOENT)); return; } fillStat(E, E.conc(a[1]), fi, fi < 0); r[0] = Engine::S(0); }; HN["stat"] = HN["lstat64"] = HN["lstat"] = HN["stat64"];
  H("mkdir") { CRASHABLE; std::string p = normPath(gcstr(E, E.conc(a[0]))); if (dirExists(E, p) || findFile(E, p) >= 0) { r[0] = Engine::S((u32)fail(E, EEXIST)); return; } if (!dirExists(E, parentOf(p))) { r[0] = Engine::S((u32)fail(E, lookErr(E, p))); return; } E.dirs.insert(p); r[0] = Engine::S(0); };
  H("rmdir") { CRASHABLE; std::string p = normPath(gcstr(E, E.conc(a[0]))); int e = !dirExists(E, p) ? findFile(E, p) >= 0 ? ENOTDIR : lookErr(E, p) : dirEmpty(E, p) ? 0 : ENOTEMPTY; if (e) { r[0] = Engine::S((u32)fail(E, e)); return; } E.fsRemoved.push_back(p); E.dirs.erase(p); r[0] = Engine::S(0); };
  H("openat64") { std::string p = atPath(E, (int)E.conc(a[0]), gcstr(E, E.conc(a[1]))); r[0] = Engine::S((u32)fsOpen(E, p, (int)E.conc(a[2]))); };
  H("unlinkat") { CRASHABLE; std::string p = atPath(E, (int)E.conc(a[0]), gcstr(E, E.conc(a[1]))); int fi = findFile(E, p); bool dir = dirExists(E, p); int e = 0; if (E.conc(a[2]) & 0x200) { e = dir ? dirEmpty(E, p) ? 0 : ENOTEMPTY : fi >= 0 ? ENOTDIR : lookErr(E, p); if (!e) { E.fsRemoved.push_back(p); E.dirs.erase(p); } } else { e = dir ? EISDIR : fi < 0 ? lookErr(E, p) : 0; if (!e) { E.fsRemoved.push_back(p); removeFile(E, fi); } } r[0] = Engine::S(e ? (u32)fail(E, e) : 0); };
  H("unlink") { CRASHABLE; std::string p = normPath(gcstr(E, E.conc(a[0]))); int fi = findFile(E, p); if (fi < 0) { r[0] = Engine::S((u32)fail(E, ENOENT)); return; } E.fsRemoved.push_back(p); removeFile(E, fi); r[0] = Engine::S(0); };
  H("rename") { CRASHABLE; std::string p = normPath(gcstr(E, E.conc(a[0]))), q = normPath(gcstr(E, E.conc(a[1]))); int fi = findFile(E, p); if (fi < 0) { r[0] = Engine::S((u32)fail(E, ENOENT)); return; } int fj = findFile(E, q); if (fj >= 0) removeFile(E, fj); E.files[fi].path = q; r[0] = Engine::S(0); };
  H("fsync") { u64 fd = (int)E.conc(a[0]); if (fd < E.fds.size() && E.fds[fd].used && E.fds[fd].file >= 0) syncFile(E, E.files[E.fds[fd].file]); r[0] = Engine::S(0); }; HN["fdatasync"] = HN["fsync"];
  H("flock") { u64 fd = (int)E.conc(a[0]), o = E.conc(a[1]); int fi = E.fds[fd].file; VFile &f = E.files[fi]; r[0] = Engine::S(0); if (o & 8) { if (f.locked == (int)fd) unlockFile(E, fi); return; }
    if (f.locked >= 0 && f.locked != (int)fd) { if (o & 4) { r[0] = Engine::S((u32)fail(E, EWOULDBLOCK)); return; } E.T->futexAddr = FLOCK_WAIT | fd; E.T->waitRet = -1; block(E, T_FUTEX, false, 0); return; }
    f.locked = fd; };
  H("fcntl") { r[0] = Engine::S(0); }; HN["fcntl64"] = HN["fcntl"]; H("ioctl") { r[0] = Engine::S((u32)fail(E, ENOTTY)); };
  H("getcwd") { u64 b = E.conc(a[0]); strcpy((char*)b, "/scratch"); M.clearSym(b, 9); r[0] = Engine::S(b); };
  H("readlink") { r[0] = Engine::S(fail(E, EINVAL)); };
  H("realpath") { std::string p = normPath(gcstr(E, E.conc(a[0]))); if (findFile(E, p) < 0 && !dirExists(E, p)) { setErrno(E, ENOENT); r[0] = Engine::S(0); return; } u64 b = M.alloc(p.size() + 1, 16); strcpy((char*)b, p.c_str()); M.clearSym(b, p.size() + 1); r[0] = Engine::S(b); };
  static auto dirStream = [](Engine &E, const std::string &p, int fd) -> u64 { std::vector<std::pair<std::string, bool>> v; std::string pre = p == "/" ? "/" : p + "/"; for (auto &f : E.files) if (!f.removed && f.path.compare(0, pre.size(), pre) == 0 && f.path.find('/', pre.size()) == std::string::npos) v.push_back({f.path.substr(pre.size()), false}); for (auto &d : E.dirs) if (d.compare(0, pre.size(), pre) == 0 && d.find('/', pre.size()) == std::string::npos) v.push_back({d.substr(pre.size()), true}); E.dirStreams.push_back({v, 0}); u64 h = M.bump(512, 16); *(u64*)h = E.dirStreams.size() - 1; *(u64*)(h + 8) = fd; return h; };
  H("opendir") { std::string p = normPath(gcstr(E, E.conc(a[0]))); if (!dirExists(E, p)) { setErrno(E, findFile(E, p) >= 0 ? ENOTDIR : lookErr(E, p)); r[0] = Engine::S(0); return; } r[0] = Engine::S(dirStream(E, p, (int)fsOpen(E, p, 0))); };
  H("fdopendir") { int fd = (int)E.conc(a[0]); r[0] = Engine::S(dirStream(E, E.fds[fd].path, fd)); };
  H("readdir64") { u64 h = E.conc(a[0]); auto &ds = E.dirStreams[*(u64*)h]; if (ds.second >= ds.first.size()) { r[0] = Engine::S(0); return; } auto &e = ds.first[ds.second++]; u64 d = h + 16; *(u64*)d = 77 + ds.second; *(u64*)(d + 8) = ds.second; *(uint16_t*)(d + 16) = 280; *(u8*)(d + 18) = e.second ? 4 : 8; strncpy((char*)(d + 19), e.first.c_str(), 255); r[0] = Engine::S(d); };
  H("closedir") { u64 fd = *(u64*)(E.conc(a[0]) + 8); if (fd < E.fds.size()) E.fds[fd].used = false; r[0] = Engine::S(0); }; H("dirfd") { r[0] = Engine::S(*(u64*)(E.conc(a[0]) + 8)); };
  H("statvfs") { r[0] = Engine::S((u32)fail(E, ENOSYS)); };
  H("statfs64") { r[0] = Engine::S((u32)fail(E, ENOSYS)); };
  H("cbrt") { r[0] = Engine::S(ExprMgr::fromD(cbrt(ExprMgr::asD(E.conc(a[0]), 64)), 64)); };
  H("trunc") { r[0] = E.fromE(X.Fp(E_FRND, 64, E.ex(a[0], 64), nullptr, 0)); }; H("floor") { r[0] = E.fromE(X.Fp(E_FRND, 64, E.ex(a[0], 64), nullptr, 1)); }; H("ceil") { r[0] = E.fromE(X.Fp(E_FRND, 64, E.ex(a[0], 64), nullptr, 2)); };
}
static bool isPanicFn(const std::string &d) {
  return d.find("rust_panic_with_hook") != std::string::npos || d.find("core::panicking::panic_fmt") == 0 || d.find("core::panicking::panic_nounwind") == 0 || d.find("core::option::unwrap_failed") == 0 || d.find("core::panicking::panic::h") == 0 || d.find("core::panicking::panic_bounds_check") == 0 || d.find("core::result::unwrap_failed") == 0 || d.find("core::option::expect_failed") == 0 || d.find("core::slice::index::slice_") == 0 || d.find("std::panicking::begin_panic") == 0 || d.find("core::str::slice_error_fail") == 0;
}
void Engine::newSchedSym() { u64 t = M.bump(8, 8); *(u64*)t = 0; symInput(*this, t, 8, "schedule"); schedE = ex(loadMem(t, 64), 64); M.clearSym(t, 8); addConstraint(X.Ule(X.C(60, schedCount), X.Extract(schedE, 4, 60))); }
