// khsym: a symbolic executor for whole-program LLVM IR produced by rustc (fat
// LTO).  Concrete control over heap/threads/files, symbolic bytes and scalars,
// forking with fork(2) at symbolic branches, every branch and every assertion
// decided by Z3.  See /verif/DESIGN.md.
#include "expr.h"
#include <map>
#include <fstream>
#include <sstream>
#include <tuple>
#include "lia.inc"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <malloc.h>
#include <time.h>
#include <map>
#include <fstream>
#include <sstream>
#include <set>
#include <deque>
#include <functional>
#include <string>
#include <memory>
#include <cstdarg>
#undef O_TRUNC
using namespace llvm;

static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double cpuS() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ----------------------------------------------------------------- options
static struct Opts {
  std::string bc, entry, out; int jobs = 8; double timeout = 600; u64 maxInst = 2000000000ull; u64 params[32] = {0}; int verbose = 0; u64 rlimit = 40000000, rlimit0 = 3000000; unsigned altSec = 15; int maxViol = 8; u64 maxPaths = ~0ull; bool trace = false, forkSel = false; double maxPathSec = 300; bool profile = false; std::set<std::string> known; int samples = 0;
} O;

// ------------------------------------------------------------- shared state
static const int MAXF = 65536, MAXLAB = 256;
struct Shared {
  volatile int tokens; volatile int stop; volatile int nviol; volatile int fileLock; volatile int nknown; volatile int nsample;
  volatile u64 paths, assumeFails, incomplete, forks, queries, satq, unsatq, unknownq, insts, checks, symChecks, cacheHits, branches, altq;
  volatile u64 solverUs, maxQueryUs, threadsMax, schedPoints; 
  volatile int nlab; char labels[MAXLAB][96]; volatile u64 labCount[MAXLAB];
  volatile u8 fnRun[MAXF]; volatile u8 fnSym[MAXF];
};
static Shared *SH;

// ---------------------------------------------------------------- compiled IR
struct Slot { u64 lo, hi; Expr *e; };
enum Op : uint16_t {
  O_NOP, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE,
  O_TRUNC, O_ZEXT, O_SEXT, O_MOV, O_SELECT, O_LOAD, O_STORE, O_GEP, O_GEPN, O_ALLOCA, O_BR, O_CONDBR, O_SWITCH, O_RET, O_CALL, O_CALLI, O_HANDLER, O_UNREACH,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC, O_FABS, O_FRND, O_FPTOSI_SAT, O_FPTOUI_SAT, O_COPYSIGN,
  O_ATOMICRMW, O_CMPXCHG, O_BITCASTV, O_UMIN, O_UMAX, O_SMIN, O_SMAX, O_ABS, O_UADDO, O_USUBO, O_UMULO, O_SADDO, O_SSUBO, O_SMULO, O_UADDS, O_USUBS, O_SADDS, O_SSUBS,
  O_CTLZ, O_CTTZ, O_CTPOP, O_BSWAP, O_BITREV, O_FSHL, O_FSHR, O_TLS, O_EXTRDYN, O_INSDYN, O_FENCE, O_ASSUMEFALSE
};
struct Inst { uint16_t op; uint16_t w; u32 aux; int d, a, b, c; u64 imm; };
struct Edge { int pc; std::vector<std::pair<int, int>> cp; };
struct SwitchT { std::vector<std::pair<u64, int>> cases; int def; };
struct Engine;
typedef void (*Handler)(Engine &, Slot *ret, Slot *args, int n, const Inst &in);
struct Func {
  std::string name; int id; bool decl = false; Handler h = nullptr; std::string hname; u64 addr = 0;
  std::vector<Inst> code; int nslots = 0, nargs = 0, nret = 0; std::vector<Edge> edges; std::vector<SwitchT> sw; std::vector<std::vector<int>> ext;
  bool special = false; bool interesting = false;
};
static std::vector<Func*> funcs; static std::map<std::string, int> funcIdx;
static std::vector<Slot> consts;
static const u64 FBASE = 0x00100000, GBASE = 0x100000000000ull;
static const u64 GSIZE = 24ull << 30;

static ExprMgr X;

[[noreturn]] static void die(const char *fmt, ...) { va_list ap; va_start(ap, fmt); fprintf(stderr, "khsym: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap); fflush(stderr); _exit(3); }

// --------------------------------------------------------------- guest memory
struct Chunk { u64 size, magic; };
struct Mem {
  u8 *base; Expr ***shadow; u64 brk; std::vector<std::vector<u64>> freeLists; std::vector<std::pair<u64, u64>> globals; u8 *startBits;
  u64 heapStart = 0;
  void init() {
    base = (u8*)mmap((void*)GBASE, GSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (base != (u8*)GBASE) die("mmap guest failed");
    shadow = (Expr***)mmap(0, (GSIZE >> 12) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    startBits = (u8*)mmap(0, (GSIZE >> 7), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    brk = GBASE + 4096; freeLists.resize(200);
  }
  bool ok(u64 a, u64 n) { return a >= GBASE && a + n <= GBASE + GSIZE; }
  u64 bump(u64 n, u64 al) { brk = (brk + al - 1) & ~(al - 1); u64 r = brk; brk += n; if (brk > GBASE + GSIZE) die("guest OOM"); return r; }
  static int cls(u64 n) { // size classes
    if (n <= 512) return (n + 15) / 16; // 1..32
    int c = 33; u64 s = 640; while (s < n) { s = s + s / 4; c++; } return c; }
  static u64 clsSize(int c) { if (c <= 32) return c * 16; u64 s = 640; for (int i = 33; i < c; i++) s = s + s / 4; return (s + 15) & ~15ull; }
  void setStart(u64 a) { u64 g = (a - GBASE) >> 4; startBits[g >> 3] |= 1 << (g & 7); }
  void clrStart(u64 a) { u64 g = (a - GBASE) >> 4; startBits[g >> 3] &= ~(1 << (g & 7)); }
  bool isStart(u64 a) { u64 g = (a - GBASE) >> 4; return startBits[g >> 3] >> (g & 7) & 1; }
  u64 alloc(u64 n, u64 al) {
    if (n == 0) n = 1; if (n > (4ull << 30)) return 0; u64 p;
    if (al <= 16) { int c = cls(n); if (c < 200 && !freeLists[c].empty()) { p = freeLists[c].back(); freeLists[c].pop_back(); } else { p = bump(clsSize(c) + 16, 16) + 16; } ((Chunk*)(p - 16))->magic = c; }
    else { p = bump(n + 16 + al, 16); p = (p + 16 + al - 1) & ~(al - 1); ((Chunk*)(p - 16))->magic = 255; brk = std::max(brk, p + n); }
    ((Chunk*)(p - 16))->size = n; setStart(p); return p;
  }
  void free(u64 p) { if (!p) return; Chunk *c = (Chunk*)(p - 16); if (!isStart(p)) die("bad free %llx", (unsigned long long)p); clrStart(p); clearSym(p, c->size); if (c->magic < 200) freeLists[c->magic].push_back(p); }
  u64 sizeOf(u64 p) { return ((Chunk*)(p - 16))->size; }
  bool findObj(u64 a, u64 &b, u64 &n) {
    auto it = std::upper_bound(globals.begin(), globals.end(), std::make_pair(a, (u64)~0ull));
    if (it != globals.begin()) { --it; if (a >= it->first && a < it->first + std::max<u64>(it->second, 1)) { b = it->first; n = it->second; return true; } }
    u64 p = a & ~15ull; for (int i = 0; i < 65536 && p > GBASE; i++, p -= 16) if (isStart(p)) { u64 s = sizeOf(p); if (a < p + s) { b = p; n = s; return true; } return false; }
    return false;
  }
  Expr **page(u64 a) { return shadow[(a - GBASE) >> 12]; }
  bool hasSym(u64 a, u64 n) { if (!n) return false; u64 p0 = (a - GBASE) >> 12, p1 = (a + n - 1 - GBASE) >> 12; for (u64 p = p0; p <= p1; p++) if (shadow[p]) return true; return false; }
  Expr *symAt(u64 a) { Expr **p = page(a); return p ? p[a & 4095] : nullptr; }
  void setSym(u64 a, Expr *e) { Expr **&p = shadow[(a - GBASE) >> 12]; if (!p) { if (!e) return; p = (Expr**)calloc(4096, 8); } p[a & 4095] = e; }
  void clearSym(u64 a, u64 n) { u64 i = 0; while (i < n) { u64 pe = ((a + i) | 4095) + 1; u64 m = std::min(n - i, pe - (a + i)); Expr **p = page(a + i); if (p) memset(p + ((a + i) & 4095), 0, m * 8); i += m; } }
  void copy(u64 d, u64 s, u64 n) {
    if (!n) return;
    if (hasSym(s, n)) { std::vector<Expr*> t(n); for (u64 i = 0; i < n; i++) t[i] = symAt(s + i); memmove((void*)d, (void*)s, n); for (u64 i = 0; i < n; i++) setSym(d + i, t[i]); }
    else { memmove((void*)d, (void*)s, n); if (hasSym(d, n)) clearSym(d, n); }
  }
  Expr *byteE(u64 a) { Expr *e = symAt(a); return e ? e : X.C(8, *(u8*)a); }
};
static Mem M;

// -------------------------------------------------------------------- threads
struct Frame { Func *f; const Inst *pc; Slot *base; u64 savedSp; int retDst; Func *fnptr; };
enum TStat { T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
struct Thread {
  int id; std::vector<Frame> frames; Slot *stk, *sp; u64 gsp, glow; TStat st = T_RUN; u64 futexAddr = 0; u64 deadline = 0; bool hasDeadline = false; int joinTid = -1; bool timedOut = false;
  std::map<int, u64> tls; std::map<u64, u64> keys; u64 retval = 0; int dtorRound = 0; bool detached = false; std::string name; u64 yieldStamp = 0; bool atPoint = false; int waitRet = -1;
};
static const size_t SLOTS = 1 << 20;

// ------------------------------------------------------------------ the engine
struct VFile { std::string path; u64 buf = 0, cap = 0, len = 0; bool dir = false; bool removed = false; int locked = -1; u64 sbuf = 0, slen = 0; /* what has reached the disk for certain */ };
struct VFd { int file = -1; u64 pos = 0; int flags = 0; bool used = false; std::string path; };
struct Input { std::vector<Expr*> bytes; std::string name; };

static void countLabel(const std::string &);
struct Engine {
  std::vector<Thread*> threads; Thread *T = nullptr; int cur = 0;
  u64 insts = 0, lastInsts = 0; double t0;
  std::vector<Expr*> pc; // path constraints
  std::vector<u32> uf; // union-find over vars
  std::vector<Input> inputs; std::string knownRegion; std::string where;
  std::vector<std::pair<int, u64>> tlsGlobals; // size by index
  std::map<u64, u64> keyDtors; u64 nextKey = 1;
  u64 clockRealNs = 1700000000ull * 1000000000ull, clockMonoNs = 1000ull * 1000000000ull; u64 clockStep = 1000; Expr *symClock = nullptr; u64 clockFrozen = 0;
  std::vector<VFile> files; std::vector<VFd> fds; std::set<std::string> dirs; u64 rndState = 88172645463325252ull;
  bool clockSymSet = false; Slot clockSec{0,0,nullptr}, clockNsec{0,0,nullptr}; std::vector<std::vector<VFile>> snaps; std::vector<std::set<std::string>> snapDirs; bool crashing = false; u64 torn = 0; bool crashHold = false; Expr *crashE = nullptr; u64 crashOps = 0, crashSp = 0, crashGsp = 0; Thread *crashThread = nullptr; size_t crashDepth = 0; int crashDst = -1, lastWritten = -1; u64 acks = 0; std::vector<std::string> fsRemoved; std::vector<std::pair<std::vector<std::pair<std::string, bool>>, size_t>> dirStreams;
  bool ownToken = true; int depth = 0; Thread *schedHint = nullptr; u64 preemptBudget = 0; Expr *schedE = nullptr; u64 schedCount = 0; u64 fsOps = 0; 
  std::vector<std::vector<u128>> modelCache;
  u64 quantum = 0; const Inst *lastPc = nullptr; double pathStart = 0;

  // --------------------------------------------------------------- reporting
  std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
  std::string inputsJson() { std::string s = "["; for (size_t i = 0; i < inputs.size(); i++) { if (i) s += ","; s += "{\"n\":" + jstr(inputs[i].name) + ",\"b\":\""; for (Expr *b : inputs[i].bytes) { char t[4]; snprintf(t, 4, "%02x", (unsigned)X.eval(b)); s += t; } s += "\"}"; } return s + "]"; }
  void emit(const std::string &line) { int fd = open(O.out.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); std::string l = line + "\n"; if (write(fd, l.data(), l.size()) < 0) {} close(fd); }
  void report(const char *kind, const std::string &msg) { emit(std::string("{\"kind\":\"") + kind + "\",\"msg\":" + jstr(msg) + ",\"known\":" + jstr(knownRegion) + ",\"at\":" + jstr(backtrace(6)) + ",\"inputs\":" + inputsJson() + "}"); }
  std::string backtrace(int n) { std::string s; if (!T) return s; for (int i = (int)T->frames.size() - 1, k = 0; i >= 0 && k < n; i--) { std::string d = demangle(T->frames[i].f->name); size_t h = d.rfind("::h"); if (h != std::string::npos && d.size() - h == 19) d.resize(h); if (d.size() > 100) d = d.substr(0, 97) + "..."; s += (k ? " < " : "") + d; k++; } return s; }
  std::string fullTrace() { std::string s; for (Thread *t : threads) { if (t->st == T_DONE) continue; s += "\n thread " + std::to_string(t->id) + " st=" + std::to_string(t->st) + ": "; Thread *o = T; T = t; s += backtrace(12); T = o; } return s; }
  bool noSample = false;
  void violation(const std::string &msg) {
    noSample = true;
    if (!knownRegion.empty() && O.known.count(knownRegion)) { int k = __sync_add_and_fetch(&SH->nknown, 1); countLabel("KNOWN:" + knownRegion); if (k <= 60) report("known", msg); return; }
    int n = __sync_add_and_fetch(&SH->nviol, 1); if (n <= 400) report("violation", msg); if (n >= O.maxViol) SH->stop = 1; }
  [[noreturn]] void endPath(const char *how) {
    flushStats();
    if (!strcmp(how, "ok") && !noSample && SH->nsample < O.samples && __sync_add_and_fetch(&SH->nsample, 1) <= O.samples && !SH->stop) report("sample", "path ended");
    if (!strcmp(how, "ok")) __sync_add_and_fetch(&SH->paths, 1); else if (!strcmp(how, "assume")) __sync_add_and_fetch(&SH->assumeFails, 1); else __sync_add_and_fetch(&SH->incomplete, 1);
    if (SH->paths + SH->assumeFails >= O.maxPaths && !SH->stop) { emit("{\"kind\":\"incomplete\",\"msg\":\"path budget\"}"); SH->stop = 1; }
    if (ownToken) __sync_add_and_fetch(&SH->tokens, 1);
    _exit(0);
  }
  [[noreturn]] void incomplete(const std::string &msg) { if (!SH->stop || msg.find("stopped") == std::string::npos) { static const int lim = 200; if ((int)SH->incomplete < lim) report("incomplete", msg + (O.verbose ? fullTrace() : "")); } endPath("incomplete"); }
  void flushStats() { __sync_add_and_fetch(&SH->insts, insts - lastInsts); lastInsts = insts; }

  // ------------------------------------------------------------------ solver
  u32 find(u32 v) { while (uf.size() <= v) uf.push_back(uf.size()); while (uf[v] != v) { uf[v] = uf[uf[v]]; v = uf[v]; } return v; }
  void addConstraint(Expr *c) { if (ExprMgr::isC(c)) return; if (c->op == E_AND && c->w == 1) { addConstraint(c->k[0]); addConstraint(c->k[1]); return; } for (Expr *p : pc) if (p == c) return; pc.push_back(c); X.learn(c); auto &vs = X.varsets[X.varsetOf(c)]; for (size_t i = 1; i < vs.size(); i++) { u32 a = find(vs[0]), b = find(vs[i]); if (a != b) uf[b] = a; } }
  std::string smt2(Z3_solver s) {
    std::string t = Z3_solver_to_string(X.z3, s), o = "(set-logic QF_BV)\n"; size_t i = 0;
    while (i < t.size()) { // z3's total division operators
      if (t.compare(i, 7, "bvudiv_") == 0 || t.compare(i, 7, "bvurem_") == 0 || t.compare(i, 7, "bvsdiv_") == 0 || t.compare(i, 7, "bvsrem_") == 0) { if (i + 7 < t.size() && t[i + 7] == 'i') { o.append(t, i, 6); i += 8; continue; } }
      o += t[i++];
    }
    return o + "(check-sat)\n";
  }
  int cvc5(Z3_solver s, const std::vector<u32> &vars, std::vector<u128> &m) {
    char fn[128]; snprintf(fn, 128, "/tmp/khq.%d.%llu.smt2", (int)getpid(), (unsigned long long)SH->altq);
    FILE *f = fopen(fn, "w"); if (!f) return -1; fputs(smt2(s).c_str(), f);
    std::vector<u32> asked; for (u32 v : vars) if (X.vars[v]->zbv) asked.push_back(v);
    if (!asked.empty()) { fputs("(get-value (", f); for (u32 v : asked) fprintf(f, "v%u ", v); fputs("))\n", f); } fclose(f);
    char cmd[400]; snprintf(cmd, 400, "timeout -s KILL %u cvc5 --produce-models --solve-bv-as-int=sum --tlimit=%u %s 2>/dev/null", O.altSec + 2, O.altSec * 1000, fn);
    FILE *p = popen(cmd, "r"); std::string out; char b[4096]; size_t n; if (p) { while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n); pclose(p); } unlink(fn);
    if (out.compare(0, 5, "unsat") == 0) return 0;
    if (out.compare(0, 3, "sat") != 0) return -1;
    size_t i = 0; while ((i = out.find("(v", i)) != std::string::npos) {
      u32 v = strtoul(out.c_str() + i + 2, nullptr, 10); size_t q = out.find('#', i); if (q == std::string::npos) break; u128 val = 0; bool bin = out[q + 1] == 'b'; q += 2;
      while (q < out.size() && isxdigit(out[q])) { unsigned d = out[q] <= '9' ? out[q] - '0' : (out[q] | 32) - 'a' + 10; val = bin ? val << 1 | d : val << 4 | d; q++; }
      if (v < m.size()) m[v] = val; i = q; }
    return 1;
  }
  // is (pc & c) satisfiable?  1 yes (model updated into m), 0 no, -1 unknown
  int query(Expr *c, std::vector<u128> &m) {
    if (ExprMgr::isC(c)) { m = X.model; return c->c ? 1 : 0; }
    // model cache
    auto &vs = X.varsets[X.varsetOf(c)]; std::vector<Expr*> slice; std::set<u32> roots; for (u32 v : vs) roots.insert(find(v));
    bool fp = c->fp; std::vector<u32> sliceVars;
    for (Expr *p : pc) { auto &pv = X.varsets[X.varsetOf(p)]; if (!pv.empty() && roots.count(find(pv[0]))) { slice.push_back(p); fp |= p->fp; } }
    for (u32 v = 0; v < X.vars.size(); v++) if (roots.count(find(v))) sliceVars.push_back(v);
    // quick try: cached models
    for (int i = (int)modelCache.size() - 1; i >= 0; i--) {
      auto &cm = modelCache[i]; std::vector<u128> save = X.model; for (u32 v : sliceVars) if (v < cm.size()) X.model[v] = cm[v]; X.stamp++;
      bool ok = X.eval(c) != 0; for (size_t j = 0; ok && j < slice.size(); j++) ok = X.eval(slice[j]) != 0;
      if (ok) { m = X.model; X.model = save; X.stamp++; __sync_add_and_fetch(&SH->cacheHits, 1); return 1; }
      X.model = save; X.stamp++;
    }
    double q0 = nowS(); int res;
    Z3_solver s; 
    { Z3_tactic t = Z3_mk_tactic(X.z3, fp ? "qffpbv" : "qfbv"); Z3_tactic_inc_ref(X.z3, t); s = Z3_mk_solver_from_tactic(X.z3, t); Z3_solver_inc_ref(X.z3, s); Z3_tactic_dec_ref(X.z3, t); }
    for (Expr *p : slice) { X.prelower(p, true); Z3_solver_assert(X.z3, s, X.bo(p)); }
    X.prelower(c, true); Z3_solver_assert(X.z3, s, X.bo(c));
    auto limit = [&](u64 n) { Z3_params ps = Z3_mk_params(X.z3); Z3_params_inc_ref(X.z3, ps); Z3_params_set_uint(X.z3, ps, Z3_mk_string_symbol(X.z3, "rlimit"), (unsigned)std::min<u64>(n, 0xfffffff0u)); Z3_solver_set_params(X.z3, s, ps); Z3_params_dec_ref(X.z3, ps); };
    // bit-blasting first; arithmetic it cannot finish quickly goes to cvc5 with
    // bit-vectors read as integers; what neither decides gets the full budget
    bool hard = !fp && O.rlimit > O.rlimit0; limit(hard ? O.rlimit0 : O.rlimit);
    Z3_lbool r = Z3_solver_check(X.z3, s);
    res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; bool have = false;
    if (res < 0 && hard) { __sync_add_and_fetch(&SH->altq, 1); m = X.model; Lia L(X); std::vector<Expr*> cs = slice; cs.push_back(c); res = L.solve(cs, O.rlimit, m); if (res < 0) { m = X.model; res = cvc5(s, sliceVars, m); } have = res == 1; }
    if (res < 0 && hard) { limit(O.rlimit); r = Z3_solver_check(X.z3, s); res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; }
    if (res == 1) {
      if (!have) { Z3_model zm = Z3_solver_get_model(X.z3, s); Z3_model_inc_ref(X.z3, zm); m = X.model;
      for (u32 v : sliceVars) { Expr *ve = X.vars[v]; u128 val = 0; for (unsigned lo = 0; lo < ve->w; lo += 64) { unsigned hi = std::min<unsigned>(lo + 63, ve->w - 1); Z3_ast a = X.bv(ve), out; if (hi - lo + 1 != ve->w) a = Z3_mk_extract(X.z3, hi, lo, a); uint64_t u = 0; if (Z3_model_eval(X.z3, zm, a, true, &out)) Z3_get_numeral_uint64(X.z3, out, &u); val |= (u128)u << lo; } m[v] = val; }
      Z3_model_dec_ref(X.z3, zm); }
      // validate model against our own evaluator (guards the lowering itself)
      std::vector<u128> save = X.model; X.model = m; X.stamp++; bool ok = X.eval(c) != 0; for (size_t j = 0; ok && j < slice.size(); j++) ok = X.eval(slice[j]) != 0; X.model = save; X.stamp++;
      if (!ok) { std::string d; incomplete("solver model does not satisfy query under evaluator: " + X.str(c)); }
      modelCache.push_back(m); if (modelCache.size() > 6) modelCache.erase(modelCache.begin());
    }
    if (res < 0 && getenv("KH_DUMP")) { char fn[256]; snprintf(fn, 256, "%s/q%d_%llu.smt2", getenv("KH_DUMP"), (int)getpid(), (unsigned long long)SH->queries); FILE *f = fopen(fn, "w"); if (f) { fputs(smt2(s).c_str(), f); fclose(f); } }
    Z3_solver_dec_ref(X.z3, s);
    u64 us = (nowS() - q0) * 1e6; __sync_add_and_fetch(&SH->queries, 1); __sync_add_and_fetch(&SH->solverUs, us); if (us > SH->maxQueryUs) SH->maxQueryUs = us;
    if (us > (u64)(getenv("KH_SLOW") ? atof(getenv("KH_SLOW")) * 1e6 : 2e6) && O.verbose) fprintf(stderr, "[slow query %.1fs res=%d slice=%zu sz=%u] %s\n", us / 1e6, res, slice.size(), c->sz, X.str(c).substr(0, 600).c_str());
    if (res == 1) __sync_add_and_fetch(&SH->satq, 1); else if (res == 0) __sync_add_and_fetch(&SH->unsatq, 1); else __sync_add_and_fetch(&SH->unknownq, 1);
    return res;
  }
  void checkStop() { if (SH->stop) incomplete("stopped"); if (nowS() - pathStart > O.maxPathSec) incomplete("path time budget"); }
  // fork: returns true in the child
  bool forkPath() {
    checkStop(); __sync_add_and_fetch(&SH->forks, 1); flushStats();
    fflush(stdout); fflush(stderr);
    bool tok = false; int t = SH->tokens; while (t > 0) { if (__sync_bool_compare_and_swap(&SH->tokens, t, t - 1)) { tok = true; break; } t = SH->tokens; }
    pid_t p = fork();
    if (p < 0) { if (tok) __sync_add_and_fetch(&SH->tokens, 1); incomplete("fork failed"); }
    if (p == 0) { ownToken = tok; depth++; lastInsts = insts; pathStart = nowS(); return true; }
    if (!tok) { double w0 = nowS(); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) { emit("{\"kind\":\"crash\",\"msg\":\"engine child killed by signal " + std::to_string(WTERMSIG(st)) + "\"}"); __sync_add_and_fetch(&SH->incomplete, 1); } else if (WEXITSTATUS(st)) { emit("{\"kind\":\"crash\",\"msg\":\"engine child exit " + std::to_string(WEXITSTATUS(st)) + "\"}"); __sync_add_and_fetch(&SH->incomplete, 1); } pathStart += nowS() - w0; }
    return false;
  }
  // decide a symbolic branch
  bool branch(Expr *c) {
    if (ExprMgr::isC(c)) return c->c != 0;
    __sync_add_and_fetch(&SH->branches, 1);
    bool v = X.eval(c) != 0; Expr *taken = v ? c : X.Not(c), *other = v ? X.Not(c) : c;
    for (Expr *p : pc) if (p == taken) return v;
    std::vector<u128> m; int r = query(other, m);
    if (r == 0) return v;
    if (r < 0) { report("incomplete", "solver unknown on branch: " + X.str(other).substr(0, 300)); __sync_add_and_fetch(&SH->incomplete, 1); addConstraint(taken); return v; }
    if (forkPath()) { X.model = m; X.stamp++; addConstraint(other); return !v; }
    addConstraint(taken); return v;
  }
  u128 concretize(Expr *e) {
    int n = 0;
    while (true) {
      if (ExprMgr::isC(e)) return e->c;
      u128 v = X.eval(e); Expr *eq = X.Eq(e, X.C(e->w, v)); if (ExprMgr::isC(eq)) return v; for (Expr *p : pc) if (p == eq) return v;
      std::vector<u128> m; Expr *ne = X.Not(eq); int r = query(ne, m);
      if (r == 0) return v;
      if (r < 0) { report("incomplete", "solver unknown on concretize"); __sync_add_and_fetch(&SH->incomplete, 1); addConstraint(eq); return v; }
      if (n++ > 2000) incomplete("too many values to concretize: " + X.str(e).substr(0, 300));
      if (forkPath()) { X.model = m; X.stamp++; addConstraint(ne); continue; }
      addConstraint(eq); return v;
    }
  }
  u64 conc(const Slot &s) { if (!s.e) return s.lo; markSym(); return (u64)concretize(s.e); }
  void markSym() { if (T && !T->frames.empty()) SH->fnSym[T->frames.back().f->id & (MAXF - 1)] = 1; }

  // -------------------------------------------------------------- slot helpers
  static Slot S(u64 v) { return Slot{v, 0, nullptr}; }
  Expr *ex(const Slot &s, unsigned w) { return s.e ? s.e : X.C(w, (u128)s.hi << 64 | s.lo); }
  Slot fromE(Expr *e) { if (ExprMgr::isC(e)) return Slot{(u64)e->c, (u64)(e->c >> 64), nullptr}; return Slot{0, 0, e}; }
  static u128 v128(const Slot &s) { return (u128)s.hi << 64 | s.lo; }
  static Slot from128(u128 v) { return Slot{(u64)v, (u64)(v >> 64), nullptr}; }

  Slot loadMem(u64 a, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    if (__builtin_expect(!M.ok(a, n), 0)) { violation("memory error: load of invalid address " + std::to_string(a)); endPath("ok"); }
    if (M.hasSym(a, n)) {
      bool any = false; for (unsigned i = 0; i < n; i++) if (M.symAt(a + i)) { any = true; break; }
      if (any) { Expr *e = M.byteE(a); for (unsigned i = 1; i < n; i++) e = X.Concat(M.byteE(a + i), e); if (e->w > bits) e = X.Extract(e, 0, bits); return fromE(e); }
    }
    Slot r{0, 0, nullptr};
    if (n <= 8) memcpy(&r.lo, (void*)a, n); else { memcpy(&r.lo, (void*)a, 8); memcpy(&r.hi, (void*)(a + 8), n - 8); }
    if (bits & 7) { r.lo &= (u64)maskw(bits); }
    return r;
  }
  void storeMem(u64 a, const Slot &s, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    if (__builtin_expect(!M.ok(a, n), 0)) { violation("memory error: store to invalid address " + std::to_string(a)); endPath("ok"); }
    if (s.e) { Expr *e = s.e; if (e->w < n * 8) e = X.Zext(e, n * 8); for (unsigned i = 0; i < n; i++) { Expr *b = X.Extract(e, i * 8, 8); if (ExprMgr::isC(b)) { *(u8*)(a + i) = (u8)b->c; M.setSym(a + i, nullptr); } else { *(u8*)(a + i) = 0; M.setSym(a + i, b); } } return; }
    if (n <= 8) memcpy((void*)a, &s.lo, n); else { memcpy((void*)a, &s.lo, 8); memcpy((void*)(a + 8), &s.hi, n - 8); }
    if (M.hasSym(a, n)) M.clearSym(a, n);
  }
  // load through a symbolic pointer
  Slot loadSymPtr(Expr *p, unsigned bits) {
    markSym();
    // resolve ITEs of pointers by forking on their condition
    while (p->op == E_ITE && (ExprMgr::isC(p->k[1]) || ExprMgr::isC(p->k[2]))) { p = branch(p->k[0]) ? p->k[1] : p->k[2]; if (ExprMgr::isC(p)) return loadMem((u64)p->c, bits); }
    u64 a = (u64)X.eval(p), b, n; unsigned nb = (bits + 7) / 8;
    if (M.findObj(a, b, n) && n <= 16384 && n >= nb) {
      Expr *off = X.Sub(p, X.C(64, b)); Expr *inb = X.Ule(off, X.C(64, n - nb)); std::vector<u128> m; int r = query(X.Not(inb), m);
      if (r == 0) {
        // find stride from the known zero low bits
        unsigned stride = 1; while (stride < nb && stride < 16 && [&] { Expr *low = X.Extract(off, 0, __builtin_ctz(stride * 2)); return ExprMgr::isC(low) && low->c == 0; }()) stride *= 2;
        unsigned sh = __builtin_ctz(stride); Expr *idx = sh ? X.Extract(off, sh, 64 - sh) : off; unsigned ab = X.activeBits(idx); if (ab == 0) ab = 1; if (ab < idx->w) idx = X.Extract(idx, 0, ab);
        // phase: a may not be stride aligned w.r.t. b; off low bits const zero guaranteed for stride>1
        u64 cnt = (n - nb) / stride + 1; bool sym = M.hasSym(b, n); bool anysym = false; if (sym) for (u64 i = 0; i < n; i++) if (M.symAt(b + i)) { anysym = true; break; }
        if (!anysym && bits <= 64) { std::vector<u64> tv(cnt); for (u64 i = 0; i < cnt; i++) tv[i] = loadMem(b + i * stride, bits).lo; u32 t = X.addTable(bits, std::move(tv)); return fromE(X.TableRead(t, idx)); }
        if (cnt <= 300) { Expr *e = ex(loadMem(b + (cnt - 1) * stride, bits), bits); for (long i = (long)cnt - 2; i >= 0; i--) { u64 iv = i; if (idx->w < 64 && (iv >> idx->w)) continue; e = X.Ite(X.Eq(idx, X.C(idx->w, iv)), ex(loadMem(b + i * stride, bits), bits), e); } return fromE(e); }
      }
    }
    u64 ad = (u64)concretize(p); return loadMem(ad, bits);
  }

  // ----------------------------------------------------------------- threads
  Thread *newThread() { Thread *t = new Thread; t->id = threads.size(); t->stk = (Slot*)mmap(0, SLOTS * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); t->sp = t->stk; u64 sz = t->id == 0 ? 64 << 20 : 8 << 20; t->glow = M.bump(sz, 4096); t->gsp = t->glow + sz - 64; threads.push_back(t); if (threads.size() > SH->threadsMax) SH->threadsMax = threads.size(); return t; }
  void pushFrame(Thread *t, Func *f, const Slot *args, int n, int retDst) {
    if (f->code.empty()) incomplete("call to undefined function " + f->name);
    if (t->frames.size() > 5000 || t->sp + f->nslots + 64 > t->stk + SLOTS) incomplete("stack depth");
    SH->fnRun[f->id & (MAXF - 1)] = 1;
    Slot *b = t->sp; t->sp += f->nslots; for (int i = 0; i < n && i < f->nargs; i++) b[i] = args[i];
    t->frames.push_back(Frame{f, f->code.data(), b, t->gsp, retDst, nullptr});
  }
  bool finishThread(Thread *t) { // run pthread key destructors; true when really done
    for (int round = 0; round < 1; round++) for (auto &kv : t->keys) { u64 v = kv.second; u64 d = keyDtors[kv.first]; if (v && d && t->dtorRound < 50) { kv.second = 0; t->dtorRound++; Slot a = S(v); Func *f = fnByAddr(d); if (f && !f->code.empty()) { pushFrame(t, f, &a, 1, -1); return false; } } }
    t->st = T_DONE; if (t != threads[0]) { munmap(t->stk, SLOTS * sizeof(Slot)); t->stk = t->sp = nullptr; }
    for (Thread *o : threads) if (o->st == T_JOIN && o->joinTid == t->id) o->st = T_RUN; return true;
  }
  Func *fnByAddr(u64 a) { if (a < FBASE || (a - FBASE) % 16 || (a - FBASE) / 16 >= funcs.size()) return nullptr; return funcs[(a - FBASE) / 16]; }
  void setErrnoFor(Thread *t, int e);
  void newSchedSym(); void preemptAt();
  // one of n alternatives, 0 unless the budget of deviations is spent here
  int decide(int n) {
    if (!preemptBudget || n < 2) return 0;
    if (n > 15) n = 15; u64 idx = schedCount++;
    if (!branch(X.Eq(X.Extract(schedE, 4, 60), X.C(60, idx)))) return 0;
    int k = 1; while (k < n - 1 && !branch(X.Eq(X.Extract(schedE, 0, 4), X.C(4, k)))) k++;
    if (k == n - 1) addConstraint(X.Eq(X.Extract(schedE, 0, 4), X.C(4, k)));
    if (--preemptBudget) newSchedSym();
    return k;
  }
  void schedule(bool needSwitch) { // choose the next runnable thread (round robin, but for deviations)
    for (int guard = 0; guard < 1000000; guard++) {
      int n = threads.size(); int cand[16], nc = 0; int lim = preemptBudget && !schedHint ? 16 : 1;
      if (schedHint) { for (int i = 0; i < n; i++) if (threads[i] == schedHint) cand[nc++] = i; schedHint = nullptr; }
      else for (int i = 1; i <= n && nc < lim; i++) { Thread *t = threads[(cur + i) % n]; if (t->st == T_RUN) cand[nc++] = (cur + i) % n; }
      if (nc) { cur = cand[nc > 1 ? decide(nc) : 0]; T = threads[cur]; quantum = insts + 20000000; return; }
      // nobody runnable: advance virtual time to the earliest deadline
      Thread *best = nullptr; for (Thread *t : threads) if ((t->st == T_SLEEP || t->st == T_FUTEX) && t->hasDeadline && (!best || t->deadline < best->deadline)) best = t;
      if (!best) { violation("deadlock: no runnable thread" + fullTrace()); endPath("ok"); }
      if (best->deadline > clockMonoNs) { clockRealNs += best->deadline - clockMonoNs; clockMonoNs = best->deadline; }
      if (best->st == T_FUTEX) { best->timedOut = true; best->futexAddr = 0; if (best->waitRet >= 0) best->frames.back().base[best->waitRet] = S((u64)-1); setErrnoFor(best, ETIMEDOUT); } best->st = T_RUN;
    }
  }

  #include "run.inc"
};
#include "handlers.inc"
#include "hashes.inc"
void Engine::setErrnoFor(Thread *t, int e) { *(int*)errnoOf(t) = e; }
#include "translate.inc"

// ------------------------------------------------------------------------ main
static void usage() { fprintf(stderr, "khsym --bc F --entry NAME --out F [--jobs N] [--timeout S] [--param i=v] [--maxinst N] [--verbose]\n"); exit(2); }
int main(int argc, char **argv) {
  std::string summary; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() -> std::string { if (i + 1 >= argc) usage(); return argv[++i]; };
    if (a == "--fork") O.forkSel = true; else if (a == "--bc") O.bc = nx(); else if (a == "--entry") O.entry = nx(); else if (a == "--out") O.out = nx(); else if (a == "--jobs") O.jobs = atoi(nx().c_str()); else if (a == "--timeout") O.timeout = atof(nx().c_str()); else if (a == "--maxinst") O.maxInst = strtoull(nx().c_str(), 0, 10); else if (a == "--verbose") O.verbose++; else if (a == "--altsec") O.altSec = atoi(nx().c_str()); else if (a == "--rlimit") O.rlimit = strtoull(nx().c_str(), 0, 10); else if (a == "--maxviol") O.maxViol = atoi(nx().c_str()); else if (a == "--maxpaths") O.maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--trace") O.trace = true; else if (a == "--profile") O.profile = true; else if (a == "--known") O.known.insert(nx()); else if (a == "--samples") O.samples = atoi(nx().c_str()); else if (a == "--pathsec") O.maxPathSec = atof(nx().c_str());
    else if (a == "--param") { std::string s = nx(); size_t e = s.find('='); O.params[atoi(s.substr(0, e).c_str()) & 31] = strtoull(s.substr(e + 1).c_str(), 0, 10); } else usage(); }
  if (O.bc.empty() || O.entry.empty() || O.out.empty()) usage();
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SH->tokens = O.jobs - 1; unlink(O.out.c_str());
  double t0 = nowS();
  prctl(PR_SET_CHILD_SUBREAPER, 1); setpgid(0, 0);
  pid_t root = fork();
  if (root == 0) {
    M.init(); Engine *E = new Engine; E->t0 = nowS(); loadModule(*E);
    if (O.verbose) fprintf(stderr, "loaded in %.2fs, %zu functions, %zu constants\n", nowS() - t0, funcs.size(), consts.size());
    // only after the module is dropped
    malloc_trim(0);
    Z3_global_param_set("parallel.enable", "false");
    Z3_config cfg = Z3_mk_config(); X.z3 = Z3_mk_context(cfg); Z3_set_error_handler(X.z3, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(4); });
    auto it = funcIdx.find(O.entry); if (it == funcIdx.end() || funcs[it->second]->code.empty()) die("entry %s not found", O.entry.c_str());
    E->pathStart = nowS(); E->T = E->newThread(); E->pushFrame(E->T, funcs[it->second], nullptr, 0, -1); E->cur = 0; E->quantum = 20000000;
    // persist names for the summary
    { std::string nf = O.out + ".fns"; FILE *f = fopen(nf.c_str(), "w"); for (Func *fn : funcs) fprintf(f, "%d\t%s\n", fn->id, demangle(fn->name).c_str()); fclose(f); }
    E->run();
    _exit(0);
  }
  bool timedout = false; int crashes = 0;
  while (true) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p < 0) break;
    if (p == 0) { usleep(5000); if (nowS() - t0 > O.timeout && !timedout) { timedout = true; SH->stop = 1; } if (timedout && nowS() - t0 > O.timeout + 60) { /* stragglers */ signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); } continue; }
    if (WIFSIGNALED(st) || WEXITSTATUS(st)) { if (!(timedout && WIFSIGNALED(st) && WTERMSIG(st) == SIGTERM)) { crashes++; FILE *f = fopen(O.out.c_str(), "a"); fprintf(f, "{\"kind\":\"crash\",\"msg\":\"engine process %s %d\"}\n", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); fclose(f); } }
  }
  FILE *f = fopen(O.out.c_str(), "a");
  fprintf(f, "{\"kind\":\"summary\",\"entry\":\"%s\",\"paths\":%llu,\"assume_pruned\":%llu,\"incomplete\":%llu,\"crashes\":%d,\"timedout\":%s,\"violations\":%d,\"forks\":%llu,\"branches\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"model_reuse\":%llu,\"instructions\":%llu,\"checks\":%llu,\"symbolic_checks\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"threads\":%llu,\"wall_s\":%.2f,\"labels\":{",
    O.entry.c_str(), (unsigned long long)SH->paths, (unsigned long long)SH->assumeFails, (unsigned long long)SH->incomplete, crashes, timedout ? "true" : "false", SH->nviol, (unsigned long long)SH->forks, (unsigned long long)SH->branches, (unsigned long long)SH->queries, (unsigned long long)SH->satq, (unsigned long long)SH->unsatq, (unsigned long long)SH->unknownq, (unsigned long long)SH->cacheHits, (unsigned long long)SH->insts, (unsigned long long)SH->checks, (unsigned long long)SH->symChecks, SH->solverUs / 1e6, SH->maxQueryUs / 1e6, (unsigned long long)SH->threadsMax, nowS() - t0);
  for (int i = 0; i < SH->nlab; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", SH->labels[i], (unsigned long long)SH->labCount[i]);
  fprintf(f, "},\"fn_run\":["); bool first = true; for (int i = 0; i < MAXF; i++) if (SH->fnRun[i]) { fprintf(f, "%s%d", first ? "" : ",", i); first = false; }
  fprintf(f, "],\"fn_sym\":["); first = true; for (int i = 0; i < MAXF; i++) if (SH->fnSym[i]) { fprintf(f, "%s%d", first ? "" : ",", i); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  return 0;
}
