// Shared by all harnesses: exact field values <-> big integers, event log that
// survives a crash of the code under test, controlled rand(), case plans.
#pragma once
#include <malloc.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <gmp.h>
#include <gmpxx.h>
#include "linear_gkr/prime_field.h"

// everything of the harness lives in namespace H, so that helpers of the code under test may have any name
namespace H {
typedef prime_field::field_element fe;
static const char *PSTR = "16798108731015832284940804142231733909759579603404752749028378864165570215949";
inline const mpz_class &P() { static mpz_class p(PSTR, 10); return p; }
inline mpz_class u128(__uint128_t x) {
  mpz_class h((unsigned long)(x >> 64)), l((unsigned long)(x & ~0ULL)); return (h << 64) + l; }
inline mpz_class raw(const fe &x) {        // the integer stored, unreduced
  mpz_class hi = u128(x.value.hi.hi);
  hi = (hi << 64) + mpz_class((unsigned long)x.value.hi.mid);
  hi = (hi << 64) + mpz_class((unsigned long)x.value.hi.lo);
  return (((hi << 128) + u128(x.value.mid)) << 128) + u128(x.value.lo); }
inline mpz_class red(mpz_class z) { mpz_class r; mpz_mod(r.get_mpz_t(), z.get_mpz_t(), P().get_mpz_t()); return r; }
inline mpz_class num(const fe &x) { return red(raw(x)); }
inline fe el(const mpz_class &z0) {
  mpz_class z = red(z0); fe r(0);
  unsigned long long w[4];
  for (int i = 0; i < 4; ++i) { mpz_class t = (z >> (64 * i)) & mpz_class("ffffffffffffffff", 16); w[i] = t.get_ui(); }
  r.value.lo = ((__uint128_t)w[1] << 64) | w[0];
  r.value.mid = ((__uint128_t)w[3] << 64) | w[2];
  return r; }
inline mpz_class inv(const mpz_class &z) { mpz_class r; mpz_class t = red(z); mpz_invert(r.get_mpz_t(), t.get_mpz_t(), P().get_mpz_t()); return r; }
inline std::string hex(const mpz_class &z) { return z.get_str(16); }
inline std::string q(const fe &x) { return "\"" + hex(num(x)) + "\""; }
inline std::string q(const mpz_class &x) { return "\"" + hex(red(x)) + "\""; }
template<class A> std::string arr(const A *a, int n) { std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ","; s += q(a[i]); } return s + "]"; }
inline std::string vec(const std::vector<mpz_class> &a) { return arr(a.data(), (int)a.size()); }

// ---- event log in shared memory ------------------------------------------
struct Shm { size_t len; int overflow; int nrand; int ngmp; char buf[1]; };
static Shm *shm; static size_t SHM_SZ = (size_t)256 << 20;
inline void log_init() { shm = (Shm *)mmap(0, SHM_SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
inline void log_reset() { shm->len = 0; shm->overflow = 0; shm->nrand = 0; shm->ngmp = 0; }
inline void ev(const std::string &s) {
  if (shm->len + s.size() + 64 > SHM_SZ) { shm->overflow = 1; return; }
  if (shm->len) shm->buf[shm->len++] = ',';
  memcpy(shm->buf + shm->len, s.data(), s.size()); shm->len += s.size(); }

// ---- rand() control --------------------------------------------------------
static unsigned long long rstate = 1; static std::vector<int> rpat; static size_t rpos; static int rmode;
static int flip_at = -1, gflip_at = -1;
inline unsigned long long smix() { unsigned long long z = (rstate += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
inline int next_rand() {
  int k = shm ? shm->nrand++ : 0, r;
  if (rmode == 0) r = (int)(smix() & 0x7fffffff);
  else if (rmode == 1) { r = rpat[rpos % rpat.size()]; rpos++; }
  else { static const int sp[] = {0, 0, 0, 0, 1, 1, 2, 0x7fffffff}; r = sp[smix() % 8]; }
  if (k == flip_at) r ^= 0x2a5a5a5a;
  return r; }

// ---- run one case in a child ----------------------------------------------
struct Outcome { std::string out; int status; };
static int hangs_seen = 0;
inline Outcome run_child(std::function<void()> body, int secs = 40) {
  if (hangs_seen >= 3) secs = 3;
  FILE *t = tmpfile(); int fd = fileno(t);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(secs);
    dup2(fd, 1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    body(); fflush(stdout); std::cout.flush(); _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hangs_seen;
  Outcome o; o.status = st; rewind(t); char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, t)) > 0) o.out.append(b, n);
  fclose(t); return o; }
inline std::string verdict(const Outcome &o) {
  if (WIFSIGNALED(o.status)) return WTERMSIG(o.status) == SIGALRM ? "hang" : "crash";
  bool ps = o.out.find("Pass") != std::string::npos, fl = o.out.find("Fail") != std::string::npos;
  if (ps && !fl) return "pass"; if (fl) return "fail"; return "none"; }

// ---- plan files ------------------------------------------------------------
struct Case { std::string id; std::vector<std::vector<std::string>> ops; std::string file; std::vector<std::pair<std::string, std::string>> aux;
  bool has(const std::string &k) const { for (auto &o : ops) if (o[0] == k) return true; return false; }
  std::vector<std::string> get(const std::string &k) const { for (auto &o : ops) if (o[0] == k) return o; return {}; } };
inline std::vector<Case> load(const char *path) {
  std::ifstream f(path); std::vector<Case> r; std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line); std::vector<std::string> w; std::string x; while (is >> x) w.push_back(x);
    if (w.empty()) continue;
    if (w[0] == "case") { r.push_back(Case()); r.back().id = w[1]; }
    else if (w[0] == "file") { size_t n = atol(w[1].c_str()); std::string b(n, 0); f.read(&b[0], n); r.back().file = b; std::getline(f, line); }
    else if (w[0] == "aux") { size_t n = atol(w[2].c_str()); std::string b(n, 0); f.read(&b[0], n); r.back().aux.push_back({w[1], b}); std::getline(f, line); }
    else r.back().ops.push_back(w);
  } return r; }
__attribute__((noinline)) inline void scribble(int b) { volatile char a[1 << 18]; for (size_t i = 0; i < sizeof a; ++i) a[i] = (char)~b; }
inline void set_rand(const Case &c) {
  rmode = 0; rstate = 1; flip_at = gflip_at = -1; rpos = 0;
  auto s = c.get("seed"); if (s.size() > 1) rstate = strtoull(s[1].c_str(), 0, 10) * 7919 + 12345;
  auto m = c.get("rand"); if (m.size() > 1) {
    if (m[1] == "pat") { rmode = 1; rpat.clear(); for (size_t i = 2; i < m.size(); ++i) rpat.push_back(atoi(m[i].c_str())); }
    else if (m[1] == "mix") rmode = 2; }
  auto fl = c.get("flip"); if (fl.size() > 1) flip_at = atoi(fl[1].c_str());
  auto gf = c.get("gflip"); if (gf.size() > 1) gflip_at = atoi(gf[1].c_str());
  // memory the code under test did not write holds a pattern, not zeros
  auto pb = c.get("perturb"); if (pb.size() > 1) { mallopt(M_PERTURB, atoi(pb[1].c_str())); scribble(atoi(pb[1].c_str())); } }
}
// every call of rand()/srand() by the code under test comes here
extern "C" int rand() noexcept { return H::next_rand(); }
extern "C" void srand(unsigned s) noexcept { if (H::rmode == 0) H::rstate = s; H::rpos = 0; }
