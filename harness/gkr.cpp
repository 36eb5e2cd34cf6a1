// Runs one of the interactive GKR programs on a plan of cases and records what
// prover and verifier exchanged.  The program's own main, verifier and prover
// are compiled from the repository unchanged; the prover the verifier talks to
// is a subclass that records every exchange and can lie on request.
#include "common.h"
#if defined(K_LINEAR)
#include "linear_gkr/prover_fast_track.h"
#elif defined(K_PERCOPY)
#include "traditional_gkr/prover_clogc.h"
#elif defined(K_BLOCKED)
#include "traditional_gkr/prover_bc_clogc.h"
#elif defined(K_PARA)
#include "linear_gkr/prover_fast_para_track.h"
#endif
namespace H {
typedef std::vector<mpz_class> V;

static Case CUR;
// challenges of the honest run of the same case (same draws), for lies that
// violate exactly one equation
struct PeekT { unsigned char c[4][40][3][24][32]; };
static PeekT *peek; static bool peeking;
static mpz_class peek_get(int run, int l, int ph, int j) { mpz_class z; mpz_import(z.get_mpz_t(), 32, 1, 1, 0, 0, peek->c[run][l][ph][j]); return z; }
static void peek_put(int run, int l, int ph, int j, const mpz_class &z) {
  if (!peeking || run >= 4 || l >= 40 || j >= 24 || run < 0 || l < 0 || j < 0) return;
  memset(peek->c[run][l][ph][j], 0, 32); size_t n = (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8;
  if (z != 0) mpz_export(peek->c[run][l][ph][j] + 32 - n, 0, 1, 1, 0, 0, z.get_mpz_t()); }

static mpz_class Z(const std::string &s) { return s[0] == '-' ? mpz_class(-mpz_class(s.substr(1), 16)) : mpz_class(s, 16); }
static V eqtab(const mpz_class &w, const V &r) { V t(1, w); for (auto &x : r) { size_t n = t.size(); t.resize(2 * n);
  for (size_t i = 0; i < n; ++i) { t[n + i] = red(t[i] * x); t[i] = red(t[i] * (1 - x)); } } return t; }

static mpz_class gateval(int ty, int u, int v, const V &p) {
  switch (ty) { case 0: return red(p[u] + p[v]); case 1: return red(p[u] * p[v]); case 2: return 0;
    case 4: case 10: return p[u]; case 5: { mpz_class s = 0; for (int k = u; k < v; ++k) s += p[k]; return red(s); }
    case 6: return red(1 - p[u]); case 7: return red(p[u] - p[v]); case 8: return red(p[u] + p[v] - 2 * p[u] * p[v]);
    case 9: return red(p[v] - p[u] * p[v]); } return 0; }
static mpz_class F(int ty, const mpz_class &x, const mpz_class &y) {
  switch (ty) { case 0: return x + y; case 1: return x * y; case 4: case 10: case 5: return x; case 6: return 1 - x;
    case 7: return x - y; case 8: return x + y - 2 * x * y; case 9: return y - x * y; } return 0; }

template<class Poly> struct PolyIO;
template<> struct PolyIO<quadratic_poly> { static V get(const quadratic_poly &p) { return V{num(p.c), num(p.b), num(p.a)}; }
  static void put(quadratic_poly &p, const V &c) { p.c = el(c[0]); p.b = el(c[1]); p.a = el(c[2]); } };
template<> struct PolyIO<cubic_poly> { static V get(const cubic_poly &p) { return V{num(p.d), num(p.c), num(p.b), num(p.a)}; }
  static void put(cubic_poly &p, const V &c) { p.d = el(c[0]); p.c = el(c[1]); p.b = el(c[2]); p.a = el(c[3]); } };
static mpz_class peval(const V &c, const mpz_class &x) { mpz_class r = 0; for (int i = (int)c.size() - 1; i >= 0; --i) r = red(r * x + c[i]); return r; }
static std::string S(long n) { return std::to_string(n); }

static int RUN = -1;
class traced_prover : public prover {
public:
  int run = 0, lay = -1, lg = 0, lu = 0, nbb = 0;
  V r0, r1, rb0, rb, ru, rv; mpz_class al, be; V lastpoly; mpz_class p1claim, lastc;
  std::vector<V> val;               // single copy: values the prover works with
  V trueinput;
#ifdef K_BLOCKED
  typedef blocked_circuit CIRC;
  int ncopy() { return C.total_blocks; }
  layered_circuit &cc(int b) { return C.blocks[b]; }
  fe *cv(int b, int i) { return circuit_value[b][i]; }
  static layered_circuit &of(CIRC &c, int b) { return c.blocks[b]; }
#else
  typedef layered_circuit CIRC;
  int ncopy() { return 1; }
  layered_circuit &cc(int) { return C; }
  fe *cv(int, int i) { return circuit_value[i]; }
#endif
  bool lies() { auto c = CUR.get("copy"); return c.size() < 2 || atoi(c[1].c_str()) == run; }
  static std::string circ(const layered_circuit &c) {
    std::string s = "[";
    for (int i = 0; i < c.total_depth; ++i) { if (i) s += ","; s += "[";
      int n = 1 << c.circuit[i].bit_length;
      for (int g = 0; g < n; ++g) { auto &x = c.circuit[i].gates[g]; if (g) s += ","; s += "[" + S(x.ty) + "," + (x.ty == 3 ? "\"" + std::to_string((long long)x.u) + "\"" : S(x.u)) + "," + S(x.v) + "]"; }
      s += "]"; }
    return s + "]"; }
  static layered_circuit deep(const layered_circuit &c) {
    layered_circuit d = c; d.circuit = new layer[c.total_depth];
    for (int i = 0; i < c.total_depth; ++i) { d.circuit[i] = c.circuit[i]; int n = 1 << c.circuit[i].bit_length;
      d.circuit[i].gates = new gate[n]; for (int g = 0; g < n; ++g) d.circuit[i].gates[g] = c.circuit[i].gates[g]; }
    return d; }
  void setgate(layered_circuit &d, const std::vector<std::string> &o) {
    int i = atoi(o[1].c_str()), g = atoi(o[2].c_str()); gate &x = d.circuit[i].gates[g];
    int ou = x.u, ov = x.v, ot = x.ty;
    x = gate(atoi(o[3].c_str()), atoi(o[4].c_str()), atoi(o[5].c_str()));
#ifdef K_PARA
    auto drop = [&](std::vector<std::pair<int, std::pair<int, int> > > &w) { for (size_t k = 0; k < w.size(); ++k) if (w[k].second.first == g) { w.erase(w.begin() + k); break; } };
    drop(d.circuit[i].u_gates[ou]); drop(d.circuit[i].v_gates[ov]); (void)ot;
    d.circuit[i].u_gates[x.u].push_back(std::make_pair(x.ty, std::make_pair(g, x.v)));
    d.circuit[i].v_gates[x.v].push_back(std::make_pair(x.ty, std::make_pair(g, x.u)));
#else
    (void)ou; (void)ov; (void)ot;
#endif
  }
  void get_circuit(const CIRC &c) {
    run = ++RUN;
#ifdef K_BLOCKED
    std::string s = "{\"e\":\"circ\",\"nb\":" + S(c.total_blocks_binary_length) + ",\"cs\":[";
    for (int b = 0; b < c.total_blocks; ++b) { if (b) s += ","; s += circ(c.blocks[b]); }
    ev(s + "]}");
    if (!peeking && CUR.has("gate") && lies()) { CIRC d = c; d.blocks = new layered_circuit[c.total_blocks];
      for (int b = 0; b < c.total_blocks; ++b) { d.blocks[b] = deep(c.blocks[b]);
        for (auto &o : CUR.ops) if (o[0] == "gate" && (o.size() < 7 || atoi(o[6].c_str()) == b)) setgate(d.blocks[b], o); }
      prover::get_circuit(d); return; }
#else
    ev("{\"e\":\"circ\",\"nb\":0,\"cs\":[" + circ(c) + "]}");
    if (!peeking && CUR.has("gate") && lies()) { CIRC d = deep(c); for (auto &o : CUR.ops) if (o[0] == "gate") setgate(d, o); prover::get_circuit(d); return; }
#endif
    prover::get_circuit(c); }

  fe *evaluate() {
    fe *r = prover::evaluate();
    int d = cc(0).total_depth, nb = ncopy();
    trueinput.clear(); for (int g = 0; g < (1 << cc(0).circuit[0].bit_length); ++g) trueinput.push_back(num(cv(0, 0)[g]));
    if (!peeking && lies()) for (auto &o : CUR.ops) {
      if (o[0] != "val" && o[0] != "valD") continue;
      int i = atoi(o[1].c_str()), g = atoi(o[2].c_str()), b = o.size() > 4 ? atoi(o[4].c_str()) : 0;
      mpz_class dl = Z(o[3]);
      if (o[0] == "valD") {   // difference dl of the input equation itself
        V pr; for (int j = 0; j < cc(0).circuit[0].bit_length; ++j) pr.push_back(peek_get(run, 1, 1, j));
        dl = red(dl * inv(eqtab(1, pr)[g])); }
      cv(b, i)[g] = el(num(cv(b, i)[g]) + dl);
      for (int k = i + 1; k < d; ++k) { V pv; int n = 1 << cc(b).circuit[k - 1].bit_length; for (int w = 0; w < n; ++w) pv.push_back(num(cv(b, k - 1)[w]));
        for (int w = 0; w < (1 << cc(b).circuit[k].bit_length); ++w) { auto &x = cc(b).circuit[k].gates[w]; cv(b, k)[w] = el(gateval(x.ty, x.u, x.v, pv)); } }
#ifdef K_BLOCKED
      { int n = 1 << cc(b).circuit[d - 1].bit_length; for (int w = 0; w < n; ++w) r[b * n + w] = cv(b, d - 1)[w]; }
#endif
    }
    int nout = 1 << cc(0).circuit[d - 1].bit_length;
    trueout.assign(r, r + nout * nb);
    if (!peeking && lies() && CUR.has("outvec")) {
#ifndef K_BLOCKED
      fe *r2 = new fe[nout]; for (int g = 0; g < nout; ++g) r2[g] = r[g]; r = r2;
#endif
      for (auto &o : CUR.ops) if (o[0] == "outvec") { int g = atoi(o[1].c_str()); r[g] = el(num(r[g]) + Z(o[2])); } }
    std::string s = "{\"e\":\"eval\",\"v\":[";
    for (int i = 0; i < d; ++i) { if (i) s += ","; s += "[";
      for (int b = 0; b < nb; ++b) { if (b) s += ","; s += arr(cv(b, i), 1 << cc(b).circuit[i].bit_length); }
      s += "]"; }
    s += "],\"out\":[";
    for (int b = 0; b < nb; ++b) { if (b) s += ","; s += arr(r + b * nout, nout); }
    ev(s + "]}");
    return r; }

  // the evaluation of the right output, although another one was claimed
  std::vector<fe> trueout;
  const fe *outraw(const fe *raw_) { return !peeking && lies() && CUR.has("outtrue") ? trueout.data() : raw_; }
  fe outval(fe v) { if (!peeking && lies()) for (auto &o : CUR.ops) if (o[0] == "outval") v = el(num(v) + Z(o[1])); return v; }
#ifdef K_BLOCKED
  fe V_res(const fe *om0, const fe *R0, const fe *omb, const fe *Rb, const fe *raw_, int n0, int nb, int sz) {
    fe v = outval(prover::V_res(om0, R0, omb, Rb, outraw(raw_), n0, nb, sz));
    ev("{\"e\":\"out\",\"r\":" + arr(R0, n0) + ",\"rb\":" + arr(Rb, nb) + ",\"val\":" + q(v) + "}"); return v; }
  void sumcheck_init(int l, int bb, int g, int u, int v, const fe &a, const fe &b, const fe *Rb, const fe *R0, const fe *R1, fe *ob, fe *o0, fe *o1) {
    prover::sumcheck_init(l, bb, g, u, v, a, b, Rb, R0, R1, ob, o0, o1); begin(l, bb, g, u, v, a, b, Rb, R0, R1); }
#else
  fe V_res(const fe *om0, const fe *R0, const fe *raw_, int n0, int sz) {
    fe v = outval(prover::V_res(om0, R0, outraw(raw_), n0, sz));
    ev("{\"e\":\"out\",\"r\":" + arr(R0, n0) + ",\"rb\":[],\"val\":" + q(v) + "}"); return v; }
  void sumcheck_init(int l, int g, int u, int v, const fe &a, const fe &b, const fe *R0, const fe *R1, fe *o0, fe *o1) {
    prover::sumcheck_init(l, g, u, v, a, b, R0, R1, o0, o1); begin(l, 0, g, u, v, a, b, 0, R0, R1); }
#endif
  void begin(int l, int bb, int g, int u, int v, const fe &a, const fe &b, const fe *Rb, const fe *R0, const fe *R1) {
    lay = l; lg = g; lu = u; nbb = bb; al = num(a); be = num(b); r0.clear(); r1.clear(); rb0.clear(); rb.clear(); ru.clear(); rv.clear();
    for (int i = 0; i < g; ++i) { r0.push_back(num(R0[i])); r1.push_back(num(R1[i])); }
    for (int i = 0; i < bb; ++i) rb0.push_back(num(Rb[i]));
    ev("{\"e\":\"layer\",\"i\":" + S(l) + ",\"lens\":[" + S(bb) + "," + S(g) + "," + S(u) + "," + S(v) + "],\"al\":" + q(a) + ",\"be\":" + q(b)
       + ",\"r0\":" + arr(R0, g) + ",\"r1\":" + arr(R1, g) + ",\"rb0\":" + (bb ? arr(Rb, bb) : std::string("[]")) + "}"); }

  mpz_class relation(const V &u, const V &v, const mpz_class &x, const mpz_class &y) {   // without the copy weight
    V w0 = eqtab(al, r0), w1 = eqtab(be, r1), eu = eqtab(1, u), evv = eqtab(1, v); mpz_class s = 0;
    layer &L = cc(0).circuit[lay];
    for (int g = 0; g < (1 << L.bit_length); ++g) { auto &q_ = L.gates[g]; mpz_class w = w0[g] + w1[g];
      if (q_.ty == 2) continue;
      if (q_.ty == 5) { for (int k = q_.u; k < q_.v; ++k) s += w * eu[k] * evv[0] * x; }
      else if (q_.ty == 4) s += w * eu[q_.u] * x;
      else s += w * eu[q_.u] * evv[q_.v] * F(q_.ty, x, y); s = red(s); }
    return red(s); }
  mpz_class blkweight() { mpz_class w = 1; for (int j = 0; j < nbb; ++j) w = red(w * (rb0[j] * rb[j] + (1 - rb0[j]) * (1 - rb[j]))); return w; }

  template<class Poly> Poly round(int ph, const fe &prev, int j, Poly p) {
    mpz_class pc = num(prev);
    V &chal = ph == 0 ? rb : ph == 1 ? ru : rv;
    if (j > 0) { chal.push_back(pc); peek_put(run, lay, ph, j - 1, pc); }
    V c = PolyIO<Poly>::get(p); bool ch = false;
    int nr = ph == 0 ? nbb : lu;
    if (!peeking && lies()) for (auto &o : CUR.ops) {
      if (o.size() < 2) continue;
      bool L = atoi(o[1].c_str()) == lay;
      if (!L) continue;
      if (o[0] == "poly" && atoi(o[2].c_str()) == ph && atoi(o[3].c_str()) == j) { for (size_t k = 4; k < o.size() && k - 4 < c.size(); ++k) c[k - 4] = red(c[k - 4] + Z(o[k])); ch = true; }
      if (o[0] == "iso" && atoi(o[2].c_str()) == ph && atoi(o[3].c_str()) == j) {       // wrong round sum by D, right value at the challenge
        mpz_class cj = peek_get(run, lay, ph, j), D = Z(o[4]); mpz_class dl = red(D * inv(1 - 2 * cj)); c[1] = red(c[1] + dl); c[0] = red(c[0] - dl * cj); ch = true; }
      if (o[0] == "last" && ph == 2 && j == nr - 1) {                                   // right round sum, final claim off by D
        mpz_class cj = peek_get(run, lay, ph, j), D = Z(o[2]); mpz_class dl = red(D * inv(2 * cj - 1)); c[1] = red(c[1] + 2 * dl); c[0] = red(c[0] - dl); ch = true; }
      if ((o[0] == "lievv" || o[0] == "lievu" || o[0] == "lieuv") && ph == 2 && j == nr - 1) {             // lie about an end value, layer equation still right
        V pv = rv; mpz_class cj = peek_get(run, lay, ph, j); pv.push_back(cj);
        mpz_class x = num(v_u), y, D = Z(o[2]);
        V t; for (int b = 0; b < ncopy(); ++b) { V w; for (int g = 0; g < (1 << lu); ++g) w.push_back(num(cv(b, lay - 1)[g])); 
          V e = eqtab(1, pv); mpz_class s = 0; for (int g = 0; g < (1 << lu); ++g) s += e[g] * w[g]; t.push_back(red(s)); }
        { V e = eqtab(1, rb); y = 0; for (int b = 0; b < ncopy(); ++b) y += e[b] * t[b]; y = red(y); }
        mpz_class D1 = o[0] == "lievv" ? mpz_class(0) : D, D2 = o[0] == "lievv" ? D : o[0] == "lievu" ? mpz_class(0) : Z(o[3]);
        mpz_class df = relation(ru, pv, x + D1, y + D2) - relation(ru, pv, x, y);
        df = red(df * blkweight());
        mpz_class dl = red(df * inv(2 * cj - 1)); c[1] = red(c[1] + 2 * dl); c[0] = red(c[0] - dl); ch = true; }
      if (o[0] == "copylie" && ph == 2) {          // linear copy layer: absorb the difference in the first polynomial
        mpz_class D = red(p1claim - relation(ru, V(lu, 0), 1, 0) * num(v_u));
        c[0] = 0; c[1] = j == 0 ? D : mpz_class(0); c[2] = 0; ch = true; }
    }
    if (ch) PolyIO<Poly>::put(p, c);
    lastpoly = c;
    ev("{\"e\":\"p" + S(ph) + "\",\"j\":" + S(j) + ",\"prev\":" + q(prev) + ",\"poly\":" + vec(c) + ",\"vu\":" + q(v_u) + "}");
    return p; }

  void bind_u(const fe &prev, const fe *R) {
    ru.push_back(num(prev)); peek_put(run, lay, 1, (int)ru.size() - 1, num(prev));
    p1claim = peval(lastpoly, num(prev));
    std::string s = "{\"e\":\"bind\",\"prev\":" + q(prev) + ",\"ru\":" + (R ? arr(R, lu) : vec(ru)) + "}"; ev(s);
    if (!peeking && lies()) for (auto &o : CUR.ops) if (o.size() > 1 && atoi(o[1].c_str()) == lay) {
      if (o[0] == "vu") v_u = el(num(v_u) + Z(o[2]));
      if (o[0] == "copylie") { V e = eqtab(1, ru); mpz_class s2 = 0; for (size_t g = 0; g < e.size(); ++g) s2 += e[g] * trueinput[g]; v_u = el(s2); } } }
#ifdef K_BLOCKED
  cubic_poly sumcheck_phase0_update(fe prev, int j) { return round<cubic_poly>(0, prev, j, prover::sumcheck_phase0_update(prev, j)); }
  void sumcheck_phase1_init(fe prev) { prover::sumcheck_phase1_init(prev); if (nbb) { rb.push_back(num(prev)); peek_put(run, lay, 0, nbb - 1, num(prev)); }
    ev("{\"e\":\"bindb\",\"prev\":" + q(prev) + "}"); }
  void sumcheck_phase2_init(fe prev) { prover::sumcheck_phase2_init(prev); bind_u(prev, 0); }
#else
  void sumcheck_phase2_init(fe prev, const fe *R, const fe *o) { prover::sumcheck_phase2_init(prev, R, o); bind_u(prev, R); }
#endif
  quadratic_poly sumcheck_phase1_update(fe prev, int j) { return round<quadratic_poly>(1, prev, j, prover::sumcheck_phase1_update(prev, j)); }
  quadratic_poly sumcheck_phase2_update(fe prev, int j) { return round<quadratic_poly>(2, prev, j, prover::sumcheck_phase2_update(prev, j)); }
  std::pair<fe, fe> sumcheck_finalize(fe prev) {
    rv.push_back(num(prev)); peek_put(run, lay, 2, (int)rv.size() - 1, num(prev));
    auto r = prover::sumcheck_finalize(prev);
    if (!peeking && lies()) for (auto &o : CUR.ops) if (o.size() > 1 && atoi(o[1].c_str()) == lay) {
      if (o[0] == "fin") { r.first = el(num(r.first) + Z(o[2])); r.second = el(num(r.second) + Z(o[3])); }
      if (o[0] == "lievv") r.second = el(num(r.second) + Z(o[2]));
      if (o[0] == "lieuv") { r.first = el(num(r.first) + Z(o[2])); r.second = el(num(r.second) + Z(o[3])); }
      if (o[0] == "lievu") r.first = el(num(r.first) + Z(o[2]));
#ifdef K_BLOCKED
      if (o[0] == "blkval") { mpz_class cl = peval(lastpoly, num(prev)); mpz_class h = relation(ru, rv, num(r.first), num(r.second)); beta_blk_val = el(cl * inv(h)); }
#endif
    }
    ev("{\"e\":\"fin\",\"prev\":" + q(prev) + ",\"vu\":" + q(r.first) + ",\"vv\":" + q(r.second) + "}");
    return r; }
};
}
class libra_traced_prover : public H::traced_prover {};

#define prover libra_traced_prover
#define main libra_main
#if defined(K_LINEAR)
#include "../src/linear_gkr/verifier_fast_track.cpp"
#include "../src/linear_gkr/main_fast_track.cpp"
#elif defined(K_PERCOPY)
#include "../src/traditional_gkr/verifier_traditional.cpp"
#include "../src/traditional_gkr/bclogc.cpp"
#elif defined(K_BLOCKED)
#include "../src/traditional_gkr/verifier_bc_clogc.cpp"
// the program reads one file for all blocks; the classes take blocks with different inputs
struct libra_traced_verifier : verifier {
  template<class... A> auto read_circuit(A&&... a) -> decltype(verifier::read_circuit(a...)) {
    struct Set { libra_traced_verifier *v; ~Set() { for (auto &o : H::CUR.ops) if (o[0] == "binput")
      v->C.blocks[atoi(o[1].c_str())].circuit[0].gates[atoi(o[2].c_str())].u = atoll(o[3].c_str()); } } set{this};
    return verifier::read_circuit(a...); } };
#define verifier libra_traced_verifier
#include "../src/traditional_gkr/bc_clogc.cpp"
#undef verifier
#elif defined(K_PARA)
#include "../src/linear_gkr/verifier_fast_para_track.cpp"
#include "../src/linear_gkr/main_fast_para_track.cpp"
#endif
#undef main
#undef prover
#ifdef THREAD_HOOKS
#include "threads.h"
namespace H {
static void region_setup(const Case &c) { TS::setup(c); }
#else
namespace H {
static void region_setup(const Case &) {}
#endif
#ifdef K_PARA
static void invoke() { libra_main(); }
#else
static char a0[] = "prog", a1[] = "test_circuit.txt"; static char a2[32], a3[32];
static void invoke() { char *av[] = {a0, a1, a2, a3, 0}; libra_main(4, av); }
#endif

int run_plan(int argc, char **argv) {
  auto cases = load(argv[1]); FILE *out = fopen(argv[2], "w");
  log_init(); peek = (PeekT *)mmap(0, sizeof(PeekT), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifdef THREAD_HOOKS
  TS::stat = (TS::Stat *)mmap(0, sizeof(TS::Stat), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#endif
  for (auto &c : cases) {
    CUR = c;
#ifdef THREAD_HOOKS
    memset(TS::stat, 0, sizeof(TS::Stat));
#endif
    { std::ofstream f("test_circuit.txt"); f << c.file; }
    auto cp = c.get("copies"); int nc = cp.size() > 1 ? atoi(cp[1].c_str()) : 1; int lgc = 0; while ((1 << lgc) < nc) ++lgc;
    std::string env = S(nc), env2 = S(lgc);
    auto go = [&](bool pk) {
      log_reset();
      return run_child([&, pk]() { peeking = pk; set_rand(c); region_setup(c);
#ifndef K_PARA
        strcpy(a2, env.c_str()); strcpy(a3, env2.c_str());
#endif
        invoke();
#ifdef THREAD_HOOKS
        TS::finish();
#endif
      }); };
    if (c.has("peek")) { memset(peek, 0, sizeof(PeekT)); go(true); }
    Outcome o = go(false);
    std::string evs(shm->buf, shm->len);
    std::string thr;
#ifdef THREAD_HOOKS
    thr = ",\"thr\":{\"access\":" + S(TS::stat->access) + ",\"regions\":" + S(TS::stat->region) + ",\"switches\":" + S(TS::stat->sw) + ",\"workers\":" + S(TS::stat->maxw)
        + ",\"nconf\":" + S(TS::stat->conf) + ",\"conf\":[" + TS::stat->confs + "]}";
#endif
    fprintf(out, "{\"id\":\"%s\",\"ev\":[%s],\"verdict\":\"%s\",\"nrand\":%d,\"ovf\":%d%s}\n", c.id.c_str(), evs.c_str(), verdict(o).c_str(), shm->nrand, shm->overflow, thr.c_str());
    fflush(out);
  }
  fclose(out); return 0; }
}
int main(int argc, char **argv) { return H::run_plan(argc, argv); }
