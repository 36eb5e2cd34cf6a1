// Controlled thread scheduling for the multi-threaded prover.  The prover's
// objects are compiled with the compiler's memory-access instrumentation
// (-fsanitize=thread) but linked with the hooks below instead of the
// sanitizer: every instrumented access is a possible switch point and is
// recorded, and only the thread holding the token runs.
#pragma once
#include <pthread.h>
#include <dlfcn.h>
#include <unordered_map>
#include <deque>
namespace TS {
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*pj_t)(pthread_t, void **);
typedef int (*pm_t)(pthread_mutex_t *);
static pc_t real_create; static pj_t real_join; static pm_t real_lock, real_unlock, real_try;
static const int MAXW = 64;
struct Worker { pthread_t th; bool live, done, joined; void *(*fn)(void *); void *arg; char *lo, *hi; unsigned long long joined_before; int waits; };
static Worker W[MAXW]; static int nw;            // workers of the current region, 1..nw
static bool on;                                   // control active
static int mode; static unsigned long long sst; static int sden; static int perm[24][4]; static int permk;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int turn;                                  // who may run: 0 = main
static __thread int me; static __thread int locks; static __thread bool inhook;
static long n_access, n_region, n_switch, n_conf; static int maxw; static std::string confs;
struct Cell { unsigned char r[8], w[8], mr[8], mwr[8]; };   // byte masks of worker k (1..7); main against live worker k
static std::unordered_map<unsigned long, Cell> *cells;
static char *blk_lo[4096], *blk_hi[4096]; static int nblk;  // memory allocated by workers in this region
static unsigned rnd(unsigned n) { sst = sst * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(sst >> 33) % n; }

static bool runnable(int k) { if (k == 0) return W[0].waits == 0 || (W[W[0].waits].done); return W[k].live && !W[k].done; }
static int choose(int cur, bool must) {
  int c[MAXW], n = 0;
  for (int k = 0; k <= nw; ++k) if (runnable(k) && !(must && k == cur)) c[n++] = k;
  if (n == 0) return cur;
  if (mode == 0) {            // main first, then workers to completion in a fixed order
    if (runnable(0) && !(must && cur == 0)) return 0;
    int best = -1, bp = 1000; for (int i = 0; i < n; ++i) { if (c[i] == 0) continue; int p = c[i] <= 4 ? perm[permk][c[i] - 1] : c[i]; if (p < bp) { bp = p; best = c[i]; } }
    return best < 0 ? c[0] : best; }
  if (mode == 1) {            // every worker runs to completion as soon as it is created
    for (int i = n - 1; i >= 0; --i) if (c[i] != 0) return c[i]; return c[0]; }
  return c[rnd(n)]; }
static void pass(int to) {    // give the token, wait for it to return
  if (to == me) return;
  n_switch++;
  real_lock(&mx); turn = to; pthread_cond_broadcast(&cv);
  while (turn != me) pthread_cond_wait(&cv, &mx);
  real_unlock(&mx); }
static void region_end() {
  n_region++; if (nw > maxw) maxw = nw;
  for (auto &kv : *cells) { Cell &c = kv.second;
    for (int a = 1; a <= nw && a < 8; ++a) {
      if ((c.mwr[a] & (c.r[a] | c.w[a])) || (c.mr[a] & c.w[a])) { n_conf++; if (confs.size() < 400) confs += (confs.empty() ? "" : ",") + std::string("[") + std::to_string(n_region) + ",0," + std::to_string(a) + "]"; goto next; }
      for (int b = a + 1; b <= nw && b < 8; ++b) {
        if (W[b].joined_before >> a & 1) continue;
        if ((c.w[a] & (c.r[b] | c.w[b])) || (c.w[b] & c.r[a])) { n_conf++; if (confs.size() < 400) confs += (confs.empty() ? "" : ",") + std::string("[") + std::to_string(n_region) + "," + std::to_string(a) + "," + std::to_string(b) + "]"; goto next; } } }
    next:; }
  cells->clear(); nw = 0; nblk = 0; W[0].waits = 0; }
static void access(const void *p, size_t n, bool wr) {
  if (!on || inhook || nw == 0) return;
  char *a = (char *)p;
  if (me && a >= W[me].lo && a < W[me].hi) return;
  inhook = true;
  for (int i = 0; i < nblk; ++i) if (a >= blk_lo[i] && a < blk_hi[i]) { inhook = false; return; }
  n_access++;
  bool shared = false;
  if (!locks) for (size_t o = 0; o < n; ) { unsigned long key = ((unsigned long)a + o) >> 2; int off = ((unsigned long)a + o) & 3; int len = (int)std::min((size_t)(4 - off), n - o); unsigned char m = ((1 << len) - 1) << off;
    Cell &c = (*cells)[key];
    if (me == 0) { for (int k = 1; k <= nw && k < 8; ++k) if (W[k].live && !W[k].joined) (wr ? c.mwr[k] : c.mr[k]) |= m; }
    else if (me < 8) { for (int k = 1; k <= nw && k < 8; ++k) if (k != me && (c.w[k] | (wr ? c.r[k] : 0))) shared = true; (wr ? c.w[me] : c.r[me]) |= m; }
    o += len; }
  if (mode == 2 && (rnd(sden) == 0 || (shared && rnd(2)))) pass(choose(me, false));
  inhook = false; }
static void *start(void *v) {
  me = (int)(long)v; inhook = true;
  real_lock(&mx); while (turn != me) pthread_cond_wait(&cv, &mx); real_unlock(&mx);
  pthread_attr_t at; void *sa; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sa, &sz); pthread_attr_destroy(&at);
  W[me].lo = (char *)sa; W[me].hi = (char *)sa + sz;
  inhook = false;
  void *r = W[me].fn(W[me].arg);
  inhook = true;
  W[me].done = true; int to = choose(me, true);
  real_lock(&mx); turn = to; pthread_cond_broadcast(&cv); real_unlock(&mx);
  return r; }
static void resolve() { if (real_create) return;
  real_lock = (pm_t)dlsym(RTLD_NEXT, "pthread_mutex_lock"); real_unlock = (pm_t)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); real_try = (pm_t)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  real_join = (pj_t)dlsym(RTLD_NEXT, "pthread_join"); real_create = (pc_t)dlsym(RTLD_NEXT, "pthread_create"); }
static void setup(const H::Case &c) {
  resolve(); cells = new std::unordered_map<unsigned long, Cell>(); on = true; me = 0; turn = 0; mode = 0; permk = 0; sst = 7; sden = 16;
  int p[4] = {0, 1, 2, 3}, k = 0; do { for (int i = 0; i < 4; ++i) perm[k][i] = p[i]; ++k; } while (std::next_permutation(p, p + 4));
  auto s = c.get("sched"); if (s.size() > 1) {
    if (s[1] == "perm") permk = atoi(s[2].c_str()) % 24;
    if (s[1] == "eager") mode = 1;
    if (s[1] == "rnd") { mode = 2; sst = strtoull(s[2].c_str(), 0, 10) * 2654435761ULL + 99; sden = atoi(s[3].c_str()); } } }
struct Stat { long access, region, sw, conf; int maxw; char confs[512]; };
static Stat *stat;
static void finish() { if (!stat) return; stat->access = n_access; stat->region = n_region; stat->sw = n_switch; stat->conf = n_conf; stat->maxw = maxw; snprintf(stat->confs, 512, "%s", confs.c_str()); }
}
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  using namespace TS; resolve();
  if (!on || me != 0 || nw + 1 >= MAXW) return real_create(t, at, fn, arg);
  bool sv = inhook; inhook = true;
  int k = ++nw; Worker &w = W[k]; w = Worker(); w.fn = fn; w.arg = arg; w.live = true; w.lo = w.hi = 0;
  for (int i = 1; i < k; ++i) if (W[i].joined) w.joined_before |= 1ULL << i;
  int r = real_create(t, at, start, (void *)(long)k); w.th = *t;
  if (r == 0) pass(choose(0, false));
  inhook = sv; return r; }
int pthread_join(pthread_t t, void **ret) {
  using namespace TS; resolve();
  if (!on || me != 0) return real_join(t, ret);
  bool sv = inhook; inhook = true; int k = 0;
  for (int i = 1; i <= nw; ++i) if (W[i].live && !W[i].joined && pthread_equal(W[i].th, t)) k = i;
  if (!k) { inhook = sv; return real_join(t, ret); }
  W[0].waits = k;
  while (!W[k].done) { int to = choose(0, true); if (to == 0) break; pass(to); }
  W[0].waits = 0;
  int r = real_join(t, ret); W[k].joined = true;
  bool all = true; for (int i = 1; i <= nw; ++i) if (!W[i].joined) all = false;
  if (all) region_end();
  inhook = sv; return r; }
int pthread_mutex_lock(pthread_mutex_t *m) {
  using namespace TS; resolve();
  if (!on || inhook || nw == 0) return real_lock(m);
  while (real_try(m) != 0) { inhook = true; pass(choose(me, true)); inhook = false; }
  ++locks; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { using namespace TS; resolve(); if (on && !inhook && nw && locks) --locks; return real_unlock(m); }
#define RW(n) void __tsan_read##n(void *p) { TS::access(p, n, false); } void __tsan_write##n(void *p) { TS::access(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { TS::access(p, n, false); } void __tsan_unaligned_write##n(void *p) { TS::access(p, n, true); } \
  void __tsan_read_write##n(void *p) { TS::access(p, n, false); TS::access(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { TS::access(p, n, false); TS::access(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { TS::access(p, n, false); } void __tsan_volatile_write##n(void *p) { TS::access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
void __tsan_vptr_read(void **) {} void __tsan_vptr_update(void **, void *) {}
void __tsan_read_range(void *p, unsigned long n) { TS::access(p, n, false); } void __tsan_write_range(void *p, unsigned long n) { TS::access(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { TS::access(s, n, false); TS::access(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { TS::access(s, n, false); TS::access(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { TS::access(d, n, true); return memset(d, c, n); }
static inline void swp() { using namespace TS; if (on && !inhook && nw && mode == 2) { inhook = true; pass(choose(me, false)); inhook = false; } }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *a, int) { swp(); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int) { swp(); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { swp(); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { swp(); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { swp(); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { swp(); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { swp(); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { swp(); return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { swp(); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { swp(); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { swp(); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
// memory a worker allocates is its own and is not reused within the region
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (TS::on && TS::nw && !TS::inhook && TS::me && TS::nblk < 4096) { TS::blk_lo[TS::nblk] = (char *)p; TS::blk_hi[TS::nblk++] = (char *)p + n; } return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (TS::on && TS::nw && TS::me) return; free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
