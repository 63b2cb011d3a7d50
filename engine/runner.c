// Native runner: executes one harness entry of lib<harness>.so with the inputs
// of a replay file instead of symbolic values.
//   runner LIB ENTRY REPLAY
// replay lines:  "in <name>=<hex>"   "param <i> <v>"   "known <id>"
// exit 0: ran to the end; 1: a check failed; 3: stuck (timeout); 77: an
// assumption was false / path skipped; other/abort: panic.
//
// Threads run one at a time and switch where they block, in the order khsym
// schedules them, over a virtual clock: a recorded schedule replays exactly.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <ftw.h>
#include <limits.h>
#include <fcntl.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
typedef uint8_t u8; typedef uint64_t u64;
struct in { char name[64]; u8 *b; size_t n; };
static struct in *ins; static size_t nins, cur; static u64 params[32]; static char *known[256]; static int nknown; static char region[128];
static void clean(int c) { fflush(0); _exit(c); }
// ---- cooperative threads
enum { T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
struct thr { int id, st, hasdl, timedout, join; u64 addr, dl; sem_t sem; pthread_t pt; void *(*fn)(void*); void *arg; };
static struct thr *thrs[1024]; static int nthr; static __thread struct thr *me; static pthread_key_t donekey;
static u64 realns = 1700000000ull * 1000000000ull, monons = 1000ull * 1000000000ull, csec, cnsec; static int clockset;
static long raw(long nr, long a, long b, long c, long d, long e, long f) { register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f; long r; __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
static u64 budget, schedv, schedn; static u8 *next(size_t n, const char *name, size_t nl);
static void newsched(void) { memcpy(&schedv, next(8, "schedule", 8), 8); }
static int decide(int n) {
  if (!budget || n < 2) return 0;
  if (n > 15) n = 15;
  if (schedv >> 4 != schedn++) return 0;
  int k = schedv & 15; if (k >= n) { printf("replay: schedule diverged\n"); clean(5); }
  if (--budget) newsched(); return k;
}
static void switchto(struct thr *next) { struct thr *self = me; if (next == self) return; int done = self->st == T_DONE; sem_post(&next->sem); if (!done) while (sem_wait(&self->sem)) {} }
static void resched(void) {
  struct thr *self = me; int n = nthr;
  for (;;) {
    struct thr *cand[16]; int nc = 0, lim = budget ? 16 : 1;
    for (int i = 1; i <= n && nc < lim; i++) { struct thr *t = thrs[(self->id + i) % n]; if (t->st == T_RUN) cand[nc++] = t; }
    if (nc) { switchto(cand[nc > 1 ? decide(nc) : 0]); return; }
    struct thr *best = 0; for (int i = 0; i < n; i++) { struct thr *t = thrs[i]; if ((t->st == T_SLEEP || t->st == T_FUTEX) && t->hasdl && (!best || t->dl < best->dl)) best = t; }
    if (!best) { printf("DEADLOCK: no runnable thread\n"); clean(3); }
    if (best->dl > monons) { realns += best->dl - monons; monons = best->dl; }
    if (best->st == T_FUTEX) best->timedout = 1;
    best->st = T_RUN;
  }
}
static void preempt(void) { if (!budget) return; struct thr *c[16]; int n = 1; for (int i = 1; i < nthr && n < 15; i++) { struct thr *t = thrs[(me->id + i) % nthr]; if (t->st == T_RUN) c[n++] = t; } int k = decide(n); if (k) switchto(c[k]); }
static void block(int st, int hasdl, u64 dl) { me->st = st; me->hasdl = hasdl; me->dl = dl; me->timedout = 0; resched(); }
static struct thr *newthr(void) { if (nthr >= 1024) { printf("too many threads\n"); clean(2); } struct thr *t = calloc(1, sizeof *t); t->id = nthr; sem_init(&t->sem, 0, 0); thrs[nthr++] = t; return t; }
static void onexit_(void *p) { struct thr *t = p; t->st = T_DONE; for (int i = 0; i < nthr; i++) if (thrs[i]->st == T_JOIN && thrs[i]->join == t->id) thrs[i]->st = T_RUN; me = t; resched(); }
static void *tramp(void *p) { struct thr *t = p; while (sem_wait(&t->sem)) {} me = t; pthread_setspecific(donekey, t); return t->fn(t->arg); }
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void*), void *arg) {
  static int (*real)(pthread_t*, const pthread_attr_t*, void *(*)(void*), void*); if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  struct thr *t = newthr(); t->fn = fn; t->arg = arg; int r = real(&t->pt, at, tramp, t); if (r) { nthr--; return r; } *pt = t->pt; return 0;
}
int pthread_join(pthread_t pt, void **v) {
  static int (*real)(pthread_t, void**); if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
  for (int i = nthr - 1; i >= 0; i--) if (i && pthread_equal(thrs[i]->pt, pt)) { if (thrs[i]->st != T_DONE) { me->join = i; block(T_JOIN, 0, 0); } break; }
  return real(pt, v);
}
#define FLOCK_WAIT 0xF10C000000000000ull
static long futex(long *a) {
  int op = a[1] & 127; u64 addr = a[0], val = (unsigned)a[2];
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    if (*(volatile unsigned*)addr != (unsigned)val) { errno = EAGAIN; return -1; }
    int dl = 0; u64 d = 0; struct timespec *ts = (void*)a[3];
    if (ts) { dl = 1; unsigned __int128 t = (unsigned __int128)ts->tv_sec * 1000000000ull + ts->tv_nsec; d = t > (u64)4e18 ? (u64)4e18 : (u64)t; if (op == FUTEX_WAIT) d += monons; else if (a[1] & FUTEX_CLOCK_REALTIME) d = d - realns + monons; }
    me->addr = addr; block(T_FUTEX, dl, d); me->addr = 0; if (me->timedout) { errno = ETIMEDOUT; return -1; } return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { u64 k = 0; for (int i = 0; i < nthr; i++) if (thrs[i]->st == T_FUTEX && thrs[i]->addr == addr && k < val) { thrs[i]->st = T_RUN; thrs[i]->addr = 0; k++; } if (k) preempt(); return k; }
  if (op == FUTEX_REQUEUE || op == FUTEX_CMP_REQUEUE) { u64 k = 0; for (int i = 0; i < nthr; i++) if (thrs[i]->st == T_FUTEX && thrs[i]->addr == addr) { if (k < val) { thrs[i]->st = T_RUN; thrs[i]->addr = 0; k++; } else thrs[i]->addr = a[4]; } return k; }
  errno = ENOSYS; return -1;
}
void kh_point(void) { if (me) preempt(); }
static u64 rnd = 0x9E3779B97F4A7C15ull;
static void fillrnd(u8 *p, size_t n) { for (size_t i = 0; i < n; i++) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; p[i] = rnd >> 24; } }
ssize_t getrandom(void *p, size_t n, unsigned f) { fillrnd(p, n); return n; }
int sched_yield(void) { resched(); return 0; }
long syscall(long nr, ...) {
  long a[6]; va_list v; va_start(v, nr); for (int i = 0; i < 6; i++) a[i] = va_arg(v, long); va_end(v);
  if (me && nr == SYS_futex) return futex(a);
  if (nr == SYS_getrandom) { fillrnd((u8*)a[0], a[1]); return a[1]; }
  if (me && nr == SYS_sched_yield) { resched(); return 0; }
  long r = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  int rt = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
  if (clockset && rt) { t->tv_sec = csec; t->tv_nsec = cnsec; return 0; }
  u64 v = rt ? realns : monons; t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull; realns += 1000; monons += 1000; return 0;
}
time_t time(time_t *t) { time_t v = realns / 1000000000ull; if (t) *t = v; return v; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!me) return 0; block(T_SLEEP, 1, monons + a->tv_sec * 1000000000ull + a->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) { u64 ns = a->tv_sec * 1000000000ull + a->tv_nsec; block(T_SLEEP, 1, fl & TIMER_ABSTIME ? ns : monons + ns); return 0; }
int usleep(useconds_t u) { block(T_SLEEP, 1, monons + (u64)u * 1000); return 0; }
// ---- files: locks wake in order; the crash point counts changes
static void wakelocks(dev_t dv, ino_t in) { for (int i = 0; i < nthr; i++) if (thrs[i]->st == T_FUTEX && (thrs[i]->addr & 0xFFFF000000000000ull) == FLOCK_WAIT) { struct stat s; if (!fstat(thrs[i]->addr & 0xffffffff, &s) && s.st_dev == dv && s.st_ino == in) { thrs[i]->st = T_RUN; thrs[i]->addr = 0; return; } } }
int flock(int fd, int op) {
  for (;;) {
    long r = raw(SYS_flock, fd, op & LOCK_UN ? LOCK_UN : op | LOCK_NB, 0, 0, 0, 0);
    if (op & LOCK_UN) { struct stat s; if (!fstat(fd, &s)) wakelocks(s.st_dev, s.st_ino); return 0; }
    if (!r) return 0;
    if (r != -EWOULDBLOCK || (op & LOCK_NB)) { errno = -r; return -1; }
    me->addr = FLOCK_WAIT | (unsigned)fd; block(T_FUTEX, 0, 0);
  }
}
int close(int fd) { struct stat s; int w = 0; for (int i = 0; i < nthr; i++) w |= thrs[i]->st == T_FUTEX && (thrs[i]->addr & 0xFFFF000000000000ull) == FLOCK_WAIT; w = w && !fstat(fd, &s); long r = raw(SYS_close, fd, 0, 0, 0, 0, 0); if (w) wakelocks(s.st_dev, s.st_ino); if (r < 0) { errno = -r; return -1; } return 0; }
static int regular(int fd) { struct stat s; return fd > 2 && !fstat(fd, &s) && S_ISREG(s.st_mode); }
static int crashing; static u64 crashpoint, crashops; // in a process that is going to crash
static u64 *acks;
// called before a change; 0: go on; otherwise the kind of crash
static int hold;
static int change(void) { if (!crashing || hold) return 0; u64 i = crashops++; if (crashpoint / 4 != i) return 0; return 1 + crashpoint % 4; }
static char shadow[4096], lastw[4096];
static void shadowname(const char *p, char *o) { int n = sprintf(o, "%s/", shadow); for (; *p; p++) o[n++] = *p == '/' ? '%' : *p; o[n] = 0; }
static void copyfile(const char *p, const char *q) { int i = raw(SYS_open, (long)p, O_RDONLY, 0, 0, 0, 0), o = raw(SYS_open, (long)q, O_WRONLY | O_CREAT | O_TRUNC, 0600, 0, 0, 0); static char b[1 << 16]; long n; if (i >= 0 && o >= 0) while ((n = raw(SYS_read, i, (long)b, sizeof b, 0, 0, 0)) > 0) raw(SYS_write, o, (long)b, n, 0, 0, 0); raw(SYS_close, i, 0, 0, 0, 0, 0); raw(SYS_close, o, 0, 0, 0, 0, 0); }
static int savefile(const char *p, const struct stat *s, int t, struct FTW *w) { char r[4096], q[8192]; if (t == FTW_F && realpath(p, r)) { shadowname(r, q); copyfile(r, q); } return 0; }
static int losefile(const char *p, const struct stat *s, int t, struct FTW *w) { char r[4096], q[8192]; if (t == FTW_F && realpath(p, r) && strcmp(r, lastw)) { shadowname(r, q); if (!access(q, F_OK)) copyfile(q, r); else raw(SYS_truncate, (long)r, 0, 0, 0, 0, 0); } return 0; }
static void fdpath(int fd, char *o) { char l[64]; sprintf(l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, o, 4095); o[n < 0 ? 0 : n] = 0; }
int fsync(int fd) { if (crashing && regular(fd)) { char p[4096], q[8192]; fdpath(fd, p); shadowname(p, q); copyfile(p, q); } return 0; }
int fdatasync(int fd) { return fsync(fd); }
static void crashnow(void) { fflush(0); int how = crashpoint % 4; crashing = 0; if (how >= 2) { if (how == 2) *lastw = 0; nftw(".", losefile, 16, FTW_PHYS); } _exit(41); }
#define RET(x) do { long r_ = (x); if (r_ < 0) { errno = -r_; return -1; } return r_; } while (0)
ssize_t write(int fd, const void *p, size_t n) { if (crashing && regular(fd)) { int k = change(); if (k == 2) { struct stat s; fstat(fd, &s); char nm[4096]; fdpath(fd, nm); acks[1] = 1 + s.st_size; if (!strstr(nm, ".nebari") && !strstr(nm, "_transactions")) acks[1] |= 1ull << 63; if (n / 2) raw(SYS_write, fd, (long)p, n / 2, 0, 0, 0); crashnow(); } if (k) crashnow(); fdpath(fd, lastw); } RET(raw(SYS_write, fd, (long)p, n, 0, 0, 0)); }
ssize_t writev(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int ftruncate64(int fd, off_t n) { if (change()) crashnow(); RET(raw(SYS_ftruncate, fd, n, 0, 0, 0, 0)); }
int unlink(const char *p) { if (change()) crashnow(); RET(raw(SYS_unlink, (long)p, 0, 0, 0, 0, 0)); }
int unlinkat(int d, const char *p, int f) { if (change()) crashnow(); RET(raw(SYS_unlinkat, d, (long)p, f, 0, 0, 0)); }
int rmdir(const char *p) { if (change()) crashnow(); RET(raw(SYS_rmdir, (long)p, 0, 0, 0, 0, 0)); }
int mkdir(const char *p, mode_t m) { if (change()) crashnow(); RET(raw(SYS_mkdir, (long)p, m, 0, 0, 0, 0)); }
int rename(const char *a, const char *b) { if (change()) crashnow(); RET(raw(SYS_rename, (long)a, (long)b, 0, 0, 0, 0)); }
int open64(const char *p, int fl, ...) { va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); struct stat s; if (crashing && (fl & O_CREAT) && stat(p, &s) && change()) crashnow(); RET(raw(SYS_openat, AT_FDCWD, (long)p, fl | O_LARGEFILE, m, 0, 0)); }
// ---- harness intrinsics
u64 kh_crash_run(void (*f)(void*), void *data) {
  memcpy(&crashpoint, next(8, "crash", 5), 8); acks[0] = acks[1] = 0; fflush(0);
  pid_t c = fork();
  if (!c) { sprintf(shadow, "../shadow.%d", (int)getpid()); mkdir(shadow, 0700); { char rr[4096]; if (realpath(shadow, rr)) strcpy(shadow, rr); } nftw(".", savefile, 16, FTW_PHYS); *lastw = 0; crashing = 1; crashops = 0; hold = 0; f(data); crashing = 0; fflush(0); _exit(40); }
  int st; while (waitpid(c, &st, 0) < 0) {}
  if (WIFSIGNALED(st)) { signal(SIGABRT, SIG_DFL); raise(WTERMSIG(st)); }
  if (WEXITSTATUS(st) != 40 && WEXITSTATUS(st) != 41) clean(WEXITSTATUS(st));
  return WEXITSTATUS(st) == 41;
}
void kh_crash_hold(u8 h) { hold = h & 1; }
void kh_crash_end(void) { crashing = 0; }
void kh_ack(void) { ++*acks; }
u64 kh_acks(void) { return *acks; }
u64 kh_torn(void) { return acks[1]; }
static u8 *next(size_t n, const char *name, size_t nl) {
  static u8 zero[65536];
  if (cur >= nins) { fprintf(stderr, "replay: inputs exhausted at %.*s\n", (int)nl, name); return zero; }
  struct in *i = &ins[cur++];
  if (i->n != n || strlen(i->name) != nl || strncmp(i->name, name, nl)) { fprintf(stderr, "replay: diverged: wanted %.*s[%zu], next is %s[%zu]\n", (int)nl, name, n, i->name, i->n); clean(5); }
  return i->b;
}
void kh_sym(u8 *p, size_t n, const u8 *name, size_t nl) { memcpy(p, next(n, (const char*)name, nl), n); }
u64 kh_choose(u64 n) { u64 v; if (!n) clean(77); memcpy(&v, next(8, "choice", 6), 8); return v % n; }
void kh_assume(u8 c) { if (!(c & 1)) { fprintf(stderr, "replay: assumption false\n"); clean(77); } }
static int isknown(const char *k) { for (int i = 0; i < nknown; i++) if (!strcmp(known[i], k)) return 1; return 0; }
static void fail(const char *m, size_t ml, const char *k) { if (*k && isknown(k)) { printf("KNOWN %s: %.*s\n", k, (int)ml, m); return; } printf("FAILED: %.*s\n", (int)ml, m); clean(1); }
void kh_check(u8 c, const u8 *m, size_t ml) { if (!(c & 1)) fail((const char*)m, ml, region); }
void kh_check_known(u8 c, const u8 *m, size_t ml, const u8 *k, size_t kl) { char b[128]; snprintf(b, sizeof b, "%.*s", (int)kl, (const char*)k); if (!(c & 1)) fail((const char*)m, ml, b); }
void kh_region(const u8 *k, size_t kl) { snprintf(region, sizeof region, "%.*s", (int)kl, (const char*)k); }
void kh_reach(const u8 *l, size_t n) { }
u64 kh_param(u64 i) { return params[i & 31]; }
void kh_print(const u8 *p, size_t n) { fprintf(stderr, "%.*s\n", (int)n, (const char*)p); }
void kh_clock_set(u64 s, u64 ns) { clockset = 1; csec = s; cnsec = ns; }
void kh_clock_auto(void) { clockset = 0; }
void kh_clock_advance(u64 ns) { realns += ns; monons += ns; }
u64 kh_settle(void) { int other = 0; for (int i = 0; i < nthr; i++) if (thrs[i] != me && thrs[i]->st == T_RUN) other = 1; if (other) resched(); return other; }
void kh_sleep(u64 ns) { block(T_SLEEP, 1, monons + ns); }
void kh_schedules(u64 n) { budget = n; if (n) newsched(); }
void kh_skip(void) { clean(77); }
void kh_fork_all(u8 *p, size_t n) { }
u8 kh_and(u8 a, u8 b) { return a & b; }
u8 kh_or(u8 a, u8 b) { return a | b; }
u64 kh_is_sym(u64 a) { return 0; }
static void onalarm(int s) { static const char m[] = "TIMEOUT: deadlock or endless loop\n"; raw(SYS_write, 1, (long)m, sizeof m - 1, 0, 0, 0); _exit(3); }
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  FILE *f = fopen(argv[3], "r"); if (!f) { perror(argv[3]); return 2; }
  char *line = 0; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    char *save, *k = strtok_r(line, " \n", &save); if (!k || *k == '#') continue;
    if (!strcmp(k, "in")) { ins = realloc(ins, (nins + 1) * sizeof *ins); struct in *i = &ins[nins++]; char *nm = strtok_r(0, "=\n", &save), *hx = strtok_r(0, " \n", &save); snprintf(i->name, 64, "%s", nm ? nm : ""); i->n = hx ? strlen(hx) / 2 : 0; i->b = calloc(1, i->n + 1); for (size_t j = 0; j < i->n; j++) { unsigned x; sscanf(hx + 2 * j, "%2x", &x); i->b[j] = x; } }
    else if (!strcmp(k, "param")) { char *a = strtok_r(0, " \n", &save), *b = strtok_r(0, " \n", &save); params[atoi(a) & 31] = strtoull(b, 0, 10); }
    else if (!strcmp(k, "known")) { char *a = strtok_r(0, " \n", &save); if (nknown < 256) known[nknown++] = strdup(a); }
  }
  fclose(f);
  void *h = dlopen(argv[1], RTLD_NOW); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*fn)(void) = (void (*)(void))dlsym(h, argv[2]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
  acks = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); pthread_key_create(&donekey, onexit_); me = newthr(); me->pt = pthread_self();
  signal(SIGALRM, onalarm); alarm(getenv("KH_ALARM") ? atoi(getenv("KH_ALARM")) : 30);
  fn(); printf("END\n"); clean(0);
}
