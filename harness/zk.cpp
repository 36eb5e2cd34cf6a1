// Runs the zero-knowledge program on a plan of cases and records what prover
// and verifier exchanged, what the transcript recorded and drew, and which
// masks the prover used.  main, verifier, prover, transcript and commitment
// schemes are the repository's; the pairing library is harness/zk/bn.h.  The
// prover the verifier talks to is a subclass that records and can lie.
#include "common.h"
#include "linear_gkr/zk_prover.h"
#include "linear_gkr/transcript.h"
namespace input_vpd { extern mpz_class a; extern std::vector<mpz_class> s; extern int NumOfVar; }
namespace vpdR { extern mpz_class a; extern std::vector<mpz_class> s; }
namespace vpd_test { extern mpz_class a; extern std::vector<mpz_class> s; }
namespace H {
typedef std::vector<mpz_class> V;

static Case CUR;
struct PeekT { unsigned char c[40][3][40][32]; };   // phases 1, 2, final
static PeekT *peek; static bool peeking;
static mpz_class peek_get(int l, int ph, int j) { mpz_class z; mpz_import(z.get_mpz_t(), 32, 1, 1, 0, 0, peek->c[l][ph][j]); return z; }
static void peek_put(int l, int ph, int j, const mpz_class &z) {
  if (!peeking || l >= 40 || j >= 40 || l < 0 || j < 0) return;
  memset(peek->c[l][ph][j], 0, 32); size_t n = (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8;
  if (z != 0) mpz_export(peek->c[l][ph][j] + 32 - n, 0, 1, 1, 0, 0, z.get_mpz_t()); }
static mpz_class Z(const std::string &s) { return s[0] == '-' ? mpz_class(-mpz_class(s.substr(1), 16)) : mpz_class(s, 16); }
static std::string S(long n) { return std::to_string(n); }
static std::string pt(const bn::Ec1 &p) { return q(p.s.get()); }
static std::string pts(const std::vector<bn::Ec1> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += pt(v[i]); } return s + "]"; }
static void addlog(bn::Ec1 &p, const mpz_class &d) { p.s.set(p.s.get() + d); }
static V eqtab(const mpz_class &w, const V &r) { V t(1, w); for (auto &x : r) { size_t n = t.size(); t.resize(2 * n);
  for (size_t i = 0; i < n; ++i) { t[n + i] = red(t[i] * x); t[i] = red(t[i] * (1 - x)); } } return t; }
static mpz_class peval(const V &c, const mpz_class &x) { mpz_class r = 0; for (int i = (int)c.size() - 1; i >= 0; --i) r = red(r * x + c[i]); return r; }

// ---- transcript: the repository's, recorded; controlled challenges on request
static int ctl = 0; static unsigned long long cst; static std::vector<int> cpat; static size_t cpos;
static unsigned long long cmix() { unsigned long long z = (cst += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static mpz_class cdraw() {
  if (ctl == 2) return mpz_class(cpat[cpos++ % cpat.size()]);
  if (ctl == 3) { static const int sp[] = {0, 0, 1, 1, 2, -1}; int k = cmix() % 8; if (k < 6) return red(mpz_class(sp[k])); }
  mpz_class z = 0; for (int i = 0; i < 4; ++i) z = (z << 64) + mpz_class((unsigned long)cmix()); return red(z); }
static int flipmsg = -1, flipbit = 0;
class test_transcript : public proof_transcript {
public:
  size_t seen = 0;
  std::string fresh() {
    std::string s = "["; bool first = true;
    for (; seen < msg.size(); ++seen) { auto &m = msg[seen];
      if (m.indicator == container::randomness_indicator) continue;
      if (!first) s += ","; first = false;
      if (m.indicator == container::curve_ele_indicator) s += "[\"c\"," + pt(m.curve_ele) + "]"; else s += "[\"f\"," + q(m.fld_ele) + "]"; }
    return s + "]"; }
  prime_field::field_element *random(int size) {
    std::string m = fresh();
    // a recorded message altered behind the program's back: only the challenges may change
    prime_field::field_element *r = proof_transcript::random(size);
    if (ctl) for (int i = 0; i < size; ++i) { r[i] = el(cdraw()); msg[msg.size() - size + i].fld_ele = r[i]; }
    seen = msg.size();
    ev("{\"e\":\"draw\",\"msgs\":" + m + ",\"r\":" + arr(r, size) + "}");
    return r; }
  prime_field::field_element random() { auto a = random(1); auto r = a[0]; delete[] a; return r; }
  static std::string bytes(const std::string &b) { static const char *d = "0123456789abcdef"; std::string s = "[";
    for (size_t i = 0; i < b.size(); ++i) { if (i) s += ","; s += "\""; s += d[(unsigned char)b[i] >> 4]; s += d[b[i] & 15]; s += "\""; } return s + "]"; }
  // every recorded message in full, most significant byte first (field) or as stored (group)
  std::string all() {
    std::string s = "["; bool first = true;
    for (auto &m : msg) { if (!first) s += ","; first = false; std::string b;
      if (m.indicator == container::curve_ele_indicator) b = std::string((char *)&m.curve_ele, sizeof m.curve_ele);
      else { mpz_class z = raw(m.fld_ele); for (int i = 31; i >= 0; --i) { mpz_class t = (z >> (8 * i)) & 255; b += (char)t.get_ui(); } }
      s += "[" + S(m.indicator) + "," + bytes(b) + "]"; }
    return s + "]"; }
  void output_to_file(char *f) {
    ev("{\"e\":\"end\",\"msgs\":" + fresh() + "}");
    proof_transcript::output_to_file(f);
    if (CUR.has("prooffile")) { std::ifstream i(f, std::ios::binary); std::string b((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
      ev("{\"e\":\"file\",\"recs\":" + all() + ",\"bytes\":" + bytes(b) + ",\"size\":" + S(get_proof_size()) + "}"); } }
  void output_to_file(const char *f) { output_to_file((char *)f); }
};

static V get(const quadratic_poly &p) { return V{num(p.c), num(p.b), num(p.a)}; }
static void put(quadratic_poly &p, const V &c) { p.c = el(c[0]); p.b = el(c[1]); p.a = el(c[2]); }
static V get(const quintuple_poly &p) { return V{num(p.f), num(p.e), num(p.d), num(p.c), num(p.b), num(p.a)}; }
static void put(quintuple_poly &p, const V &c) { p.f = el(c[0]); p.e = el(c[1]); p.d = el(c[2]); p.c = el(c[3]); p.b = el(c[4]); p.a = el(c[5]); }
static mpz_class gateval(int ty, int u, int v, const V &p) {
  switch (ty) { case 0: return red(p[u] + p[v]); case 1: return red(p[u] * p[v]); case 2: return 0;
    case 4: case 10: return p[u]; case 5: { mpz_class s = 0; for (int k = u; k < v; ++k) s += p[k]; return red(s); }
    case 6: return red(1 - p[u]); case 7: return red(p[u] - p[v]); case 8: return red(p[u] + p[v] - 2 * p[u] * p[v]);
    case 9: return red(p[v] - p[u] * p[v]); case 12: { mpz_class s = 0; for (int k = u; k <= v; ++k) s += p[k] << (k - u); return red(s); }
    case 13: return red(p[u] * (1 - p[u])); } return 0; }
static mpz_class F(int ty, const mpz_class &x, const mpz_class &y) {
  switch (ty) { case 0: return x + y; case 1: return x * y; case 4: case 10: return x; case 6: return 1 - x;
    case 7: return x - y; case 8: return x + y - 2 * x * y; case 9: return y - x * y; case 13: return x - x * y; } return 0; }

class traced_prover : public zk_prover {
public:
  int lay = -1, lg = 0, lu = 0; V r0, r1, ru, rv; mpz_class al, be, fixd; int ropen = 0, masks = 0; mpz_class upu, upv; V lastfr; mpz_class frv; bool dirty = false;
  mpz_class sumtrue; V trueinput, maskR0; mpz_class hide;
  typedef std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > WW;
  static bool lies() { return !peeking; }
  template<class Fn> void ops(const char *n, Fn f) { if (lies()) for (auto &o : CUR.ops) if (o[0] == n && (o.size() < 2 || atoi(o[1].c_str()) == lay)) f(o); }
  bool op(const char *n) { bool b = false; ops(n, [&](const std::vector<std::string> &) { b = true; }); return b; }

  void get_circuit(const layered_circuit &c) {
    std::string s = "[", m = "[";
    for (int i = 0; i < c.total_depth; ++i) { if (i) { s += ","; m += ","; } s += "[";
      int n = 1 << c.circuit[i].bit_length;
      for (int g = 0; g < n; ++g) { auto &x = c.circuit[i].gates[g]; if (g) s += ","; s += "[" + S(x.ty) + "," + (x.ty == 3 ? "\"" + std::to_string((long long)x.u) + "\"" : S(x.u)) + "," + S(x.v) + "]"; }
      s += "]"; m += c.circuit[i].is_parallel ? "1" : "0"; }
    ev("{\"e\":\"circ\",\"c\":" + s + "],\"para\":" + m + "]}");
    if (lies() && CUR.has("gate")) { layered_circuit d = c; d.circuit = new layer[c.total_depth];
      for (int i = 0; i < c.total_depth; ++i) { d.circuit[i] = c.circuit[i]; int n = 1 << c.circuit[i].bit_length;
        d.circuit[i].gates = new gate[n]; for (int g = 0; g < n; ++g) d.circuit[i].gates[g] = c.circuit[i].gates[g]; }
      for (auto &o : CUR.ops) if (o[0] == "gate") d.circuit[atoi(o[1].c_str())].gates[atoi(o[2].c_str())] = gate(atoi(o[3].c_str()), atoi(o[4].c_str()), atoi(o[5].c_str()));
      zk_prover::get_circuit(d); return; }
    zk_prover::get_circuit(c); }

  fe *evaluate() {
    fe *r = zk_prover::evaluate(); int d = C.total_depth; lay = d;
    trueinput.clear(); for (int g = 0; g < (1 << C.circuit[0].bit_length); ++g) trueinput.push_back(num(circuit_value[0][g]));
    if (lies()) for (auto &o : CUR.ops) if (o[0] == "val" || o[0] == "absorb" || o[0] == "valO") {   // valO: this value only
      int i = o[0] == "absorb" ? 0 : atoi(o[1].c_str()), g = atoi(o[2].c_str());
      circuit_value[i][g] = el(num(circuit_value[i][g]) + Z(o[3]));
      if (o[0] != "valO") for (int k = i + 1; k < d; ++k) { V pv; for (int w = 0; w < (1 << C.circuit[k - 1].bit_length); ++w) pv.push_back(num(circuit_value[k - 1][w]));
        for (int w = 0; w < (1 << C.circuit[k].bit_length); ++w) { auto &x = C.circuit[k].gates[w]; circuit_value[k][w] = el(gateval(x.ty, x.u, x.v, pv)); } } }
    int nout = 1 << C.circuit[d - 1].bit_length;
    if (lies() && CUR.has("outvec")) { fe *r2 = new fe[nout]; for (int g = 0; g < nout; ++g) r2[g] = r[g]; r = r2;
      for (auto &o : CUR.ops) if (o[0] == "outvec") { int g = atoi(o[1].c_str()); r[g] = el(num(r[g]) + Z(o[2])); } }
    std::string s = "{\"e\":\"eval\",\"v\":[";
    for (int i = 0; i < d; ++i) { if (i) s += ","; s += arr(circuit_value[i], 1 << C.circuit[i].bit_length); }
    ev(s + "],\"out\":" + arr(r, nout) + "}");
    return r; }

  WW keygen_and_commit(int b, double &t) {
    lay = 0;
    auto r = zk_prover::keygen_and_commit(b, t);
    ops("icom", [&](const std::vector<std::string> &o) { int k = atoi(o[2].c_str()); addlog(k < 2 ? r.first[k] : r.second[k - 2], Z(o[3])); });
    V in; for (size_t i = 0; i + 1 < input_mpz.size(); ++i) in.push_back(red(input_mpz[i]));
    ev("{\"e\":\"icom\",\"a\":" + q(input_vpd::a) + ",\"s\":" + vec(input_vpd::s) + ",\"d\":" + pts(r.first) + ",\"d2\":" + pts(r.second)
       + ",\"co\":" + vec(in) + ",\"m\":" + arr(maskr.data(), 2) + ",\"rf\":[" + q(r_f_input) + "," + q(r_f_input2) + "]}");
    return r; }

  fe V_res(const fe *om0, const fe *R0, const fe *raw_, int n0, int sz) {
    fe v = zk_prover::V_res(om0, R0, raw_, n0, sz);
    if (lies() && CUR.has("outtrue")) { V e = eqtab(1, [&]() { V x; for (int i = 0; i < n0; ++i) x.push_back(num(R0[i])); return x; }()); mpz_class t = 0;
      for (size_t g = 0; g < e.size(); ++g) t += e[g] * num(circuit_value[C.total_depth - 1][g]); v = el(t); }
    if (lies()) for (auto &o : CUR.ops) if (o[0] == "outval") v = el(num(v) + Z(o[1]));
    ev("{\"e\":\"out\",\"r\":" + arr(R0, n0) + ",\"val\":" + q(v) + "}"); return v; }

  std::vector<bn::Ec1> sumcheck_init(int l, int g, int u, int v, const fe &a, const fe &b, const fe *R0, const fe *R1, fe *o0, fe *o1) {
    mpz_class hz = num(Zu), hz2 = num(Zv);
    lay = l + 1;
    ops("posthoc", [&](const std::vector<std::string> &o) {   // after lying about v_u by D in the layer above: absorb it in this layer's mask
      mpz_class D = Z(o[2]); mpz_class dl = red(num(a) * D * inv(2 * (num(a) * hz + num(b) * hz2))); maskR[0] = el(num(maskR[0]) + dl); });
    upu = ru.empty() ? mpz_class(-1) : ru.back(); upv = rv.empty() ? mpz_class(-1) : rv.back();
    lay = l; lg = g; lu = u; al = num(a); be = num(b); r0.clear(); r1.clear(); ru.clear(); rv.clear(); ropen = 0; fixd = 0;
    for (int i = 0; i < g; ++i) { r0.push_back(num(R0[i])); r1.push_back(num(R1[i])); }
    auto r = zk_prover::sumcheck_init(l, g, u, v, a, b, R0, R1, o0, o1);
    V next; for (int i = 0; i < (l > 1 ? 6 : 2); ++i) next.push_back(num(maskR[i]));
    ops("rcom", [&](const std::vector<std::string> &o) { size_t k = atoi(o[2].c_str()); if (k < r.size()) addlog(r[k], Z(o[3])); });
    ev("{\"e\":\"layer\",\"i\":" + S(l) + ",\"lens\":[" + S(g) + "," + S(u) + "," + S(v) + "],\"al\":" + q(a) + ",\"be\":" + q(b)
       + ",\"r0\":" + arr(R0, g) + ",\"r1\":" + arr(R1, g) + ",\"d\":" + pts(r) + ",\"a\":" + q(vpdR::a) + ",\"s\":" + vec(vpdR::s)
       + ",\"m\":" + vec(next) + ",\"rf\":" + q(r_f_R) + "}");
    return r; }

  std::vector<bn::Ec1> generate_maskpoly_pre_rho(int n, int deg) {
    auto r = zk_prover::generate_maskpoly_pre_rho(n, deg);
    int was = lay; lay = C.total_depth - 1 - masks++;
    V c; for (auto &x : maskpoly_gmp) c.push_back(red(x));
    ops("mcom", [&](const std::vector<std::string> &o) { addlog(r[atoi(o[2].c_str())], Z(o[3])); });
    sumtrue = num(maskpoly_sumc);
    ops("msum", [&](const std::vector<std::string> &o) { maskpoly_sumc = el(sumtrue + Z(o[2])); });
    ev("{\"e\":\"mask\",\"a\":" + q(vpd_test::a) + ",\"s\":" + vec(vpd_test::s) + ",\"d\":" + pts(r) + ",\"m\":" + vec(c) + ",\"rf\":" + q(r_f_mask_poly) + ",\"sum\":" + q(maskpoly_sumc) + "}");
    lay = was;
    return r; }
  void generate_maskpoly_after_rho(int n, int deg) {
    bool l = op("msum") && !op("msumkeep"); if (l) maskpoly_sumc = el(sumtrue);
    zk_prover::generate_maskpoly_after_rho(n, deg);
    ev("{\"e\":\"rho\",\"v\":" + q(rho) + "}"); }

  mpz_class drcoef() { V w0 = eqtab(al, r0), w1 = eqtab(be, r1), eu = eqtab(1, ru); mpz_class s = 0; layer &L = C.circuit[lay];
    for (int g = 0; g < (1 << L.bit_length); ++g) if (L.gates[g].ty == 4) s += (w0[g] + w1[g]) * eu[L.gates[g].u]; return red(s); }
  mpz_class relation(const V &u, const V &v, const mpz_class &x, const mpz_class &y) {
    V w0 = eqtab(al, r0), w1 = eqtab(be, r1), eu = eqtab(1, u), evv = eqtab(1, v); mpz_class s = 0; layer &L = C.circuit[lay];
    for (int g = 0; g < (1 << L.bit_length); ++g) { auto &g_ = L.gates[g]; mpz_class w = w0[g] + w1[g];
      if (g_.ty == 2 || g_.ty == 4) continue;
      if (g_.ty == 5) { for (int k = g_.u; k < g_.v; ++k) s += w * eu[k] * evv[0] * x; }
      else if (g_.ty == 12) { for (int k = g_.u; k <= g_.v; ++k) s += (w << (k - g_.u)) * eu[k] * evv[0] * x; }
      else s += w * eu[g_.u] * evv[g_.v] * F(g_.ty, x, y); s = red(s); }
    return red(s); }

  template<class Poly> Poly round(int ph, const fe &prev, int j, Poly p) {
    mpz_class pc = num(prev); V &chal = ph == 1 ? ru : rv;
    if (j > 0) { chal.push_back(pc); peek_put(lay, ph - 1, j - 1, pc); }
    V c = get(p); bool ch = false;
    ops("poly", [&](const std::vector<std::string> &o) { if (atoi(o[2].c_str()) == ph && atoi(o[3].c_str()) == j) { for (size_t k = 4; k < o.size() && k - 4 < c.size(); ++k) c[k - 4] = red(c[k - 4] + Z(o[k])); ch = true; } });
    ops("iso", [&](const std::vector<std::string> &o) { if (atoi(o[2].c_str()) == ph && atoi(o[3].c_str()) == j) {
      mpz_class cj = peek_get(lay, ph - 1, j), dl = red(Z(o[4]) * inv(1 - 2 * cj)); c[1] = red(c[1] + dl); c[0] = red(c[0] - dl * cj); ch = true; } });
    auto shift = [&](const mpz_class &D) { mpz_class cj = peek_get(lay, ph - 1, j), dl = red(D * inv(2 * cj - 1)); c[1] = red(c[1] + 2 * dl); c[0] = red(c[0] - dl); ch = true; };
    if (ph == 1 && j == 0) ops("msumabs", [&](const std::vector<std::string> &o) { c[1] = red(c[1] + num(rho) * Z(o[2])); ch = true; });
    if (ph == 2 && j == 0) ops("absorb", [&](const std::vector<std::string> &) { c[1] = red(c[1] + fixd); ch = true; });
    if (ph == 2 && j == lu - 1) {
      ops("last", [&](const std::vector<std::string> &o) { shift(Z(o[2])); });
      V pv = rv; pv.push_back(peek_get(lay, 1, j)); mpz_class D;
      // true end values with their masks
      auto endv = [&](const V &r) { V e = eqtab(1, r); mpz_class s = 0, z = 1; for (int g = 0; g < (1 << lu); ++g) s += e[g] * num(circuit_value[lay - 1][g]);
        for (auto &x : r) z = red(z * x * (1 - x)); return red(s + z * peval(get(sumRc), r.back())); };
      ops("lievv", [&](const std::vector<std::string> &o) { D = Z(o[2]); mpz_class x = num(v_u), y = endv(pv); shift(relation(ru, pv, x, y + D) - relation(ru, pv, x, y)); });
      ops("lievu", [&](const std::vector<std::string> &o) { D = Z(o[2]); mpz_class x = num(v_u), y = endv(pv);   // v_u already shifted by D
        shift(relation(ru, pv, x, y) - relation(ru, pv, x - D, y)); });
    }
    if (ph == 2 && j == 0) ops("lievu", [&](const std::vector<std::string> &o) { mpz_class d = red(drcoef() * Z(o[2])); c[1] = red(c[1] - d); ch = true; });
    if (ph == 2 && j == 1) ops("vulate", [&](const std::vector<std::string> &o) { v_u = el(num(v_u) + Z(o[2])); });
    if (ch) put(p, c);
    ev("{\"e\":\"p" + S(ph) + "\",\"j\":" + S(j) + ",\"prev\":" + q(prev) + ",\"poly\":" + vec(c) + ",\"vu\":" + q(v_u) + "}");
    return p; }

  void sumcheck_phase1_init() { zk_prover::sumcheck_phase1_init(); }
  quadratic_poly sumcheck_phase1_update(fe prev, int j) { return round(1, prev, j, zk_prover::sumcheck_phase1_update(prev, j)); }
  quintuple_poly sumcheck_phase1_updatelastbit(fe prev, int j) { return round(1, prev, j, zk_prover::sumcheck_phase1_updatelastbit(prev, j)); }
  quadratic_poly sumcheck_phase2_update(fe prev, int j) { return round(2, prev, j, zk_prover::sumcheck_phase2_update(prev, j)); }
  quintuple_poly sumcheck_phase2_updatelastbit(fe prev, int j) { return round(2, prev, j, zk_prover::sumcheck_phase2_updatelastbit(prev, j)); }
  void sumcheck_phase2_init(fe prev, const fe *R, const fe *o) {
    zk_prover::sumcheck_phase2_init(prev, R, o); ru.push_back(num(prev)); peek_put(lay, 0, lu - 1, num(prev));
    ops("vu", [&](const std::vector<std::string> &o) { v_u = el(num(v_u) + Z(o[2])); });
    ops("lievu", [&](const std::vector<std::string> &o) { v_u = el(num(v_u) + Z(o[2])); });
    ops("absorb", [&](const std::vector<std::string> &) { V e = eqtab(1, ru); mpz_class d = 0;
      for (size_t g = 0; g < e.size(); ++g) d += e[g] * (num(circuit_value[0][g]) - trueinput[g]);
      v_u = el(num(v_u) - d); fixd = red(drcoef() * d); });
    ev("{\"e\":\"bind\",\"prev\":" + q(prev) + ",\"ru\":" + arr(R, lu) + ",\"vu\":" + q(v_u) + "}"); }
  std::pair<fe, fe> sumcheck_finalize(fe prev) {
    rv.push_back(num(prev)); peek_put(lay, 1, lu - 1, num(prev));
    auto r = zk_prover::sumcheck_finalize(prev);
    ops("fin", [&](const std::vector<std::string> &o) { r.first = el(num(r.first) + Z(o[2])); r.second = el(num(r.second) + Z(o[3])); });
    ops("lievv", [&](const std::vector<std::string> &o) { r.second = el(num(r.second) + Z(o[2])); });
    ev("{\"e\":\"fin\",\"prev\":" + q(prev) + ",\"vu\":" + q(r.first) + ",\"vv\":" + q(r.second) + "}");
    return r; }
  quadratic_poly sumcheck_finalround(fe prev, int cur, fe general) {
    auto p = zk_prover::sumcheck_finalround(prev, cur, general); V c = get(p); bool ch = false; mpz_class rc = peek_get(lay, 2, 0);
    auto shift = [&](const mpz_class &D) { mpz_class dl = red(D * inv(2 * rc - 1)); c[1] = red(c[1] + 2 * dl); c[0] = red(c[0] - dl); ch = true; };
    ops("fr", [&](const std::vector<std::string> &o) { for (int k = 0; k < 3; ++k) c[k] = red(c[k] + Z(o[2 + k])); ch = true; });
    ops("friso", [&](const std::vector<std::string> &o) { mpz_class dl = red(Z(o[2]) * inv(1 - 2 * rc)); c[1] = red(c[1] + dl); c[0] = red(c[0] - dl * rc); ch = true; });
    ops("frlast", [&](const std::vector<std::string> &o) { shift(Z(o[2])); });
    ops("openx", [&](const std::vector<std::string> &o) { mpz_class w = o[2] == "M" ? num(rho) : red(num(Iuv) * (o[2] == "R1" ? al * num(preZu) : be * num(preZv))); shift(w * Z(o[3])); });
    ops("iuv", [&](const std::vector<std::string> &o) { mpz_class D = Z(o[2]); shift(D);       // make the prover's own weight absorb the difference
      V R1 = get(Rg1), R2 = get(Rg2); mpz_class k = red(al * num(preZu) * peval(R1, rc) + be * num(preZv) * peval(R2, rc)); Iuv = el(num(Iuv) + D * inv(k)); });
    if (ch) put(p, c);
    ev("{\"e\":\"fr\",\"prev\":" + q(prev) + ",\"gen\":" + q(general) + ",\"poly\":" + vec(c) + "}");
    return p; }

  void lieW(const char *nm, int want, mpz_class &ans, WW &w, const mpz_class &key) {
    ops(nm, [&](const std::vector<std::string> &o) {      // open LAYER WHICH PART D
      if (atoi(o[2].c_str()) != want) return; mpz_class D = Z(o[4]); const std::string &k = o[3]; size_t j = atoi(k.c_str() + 1);
      if (k == "v") ans = red(ans + D);
      else if (j < w.first.size()) { if (k[0] == 'w') addlog(w.first[j], D); if (k[0] == 'a') addlog(w.second[j], D); if (k[0] == 'b') { addlog(w.first[j], D); addlog(w.second[j], red(D * key)); } } }); }
  void open(const char *t, int k, const V &R, const mpz_class &ans, const WW &w, const std::string &more = "") {
    ev(std::string("{\"e\":\"") + t + "\",\"k\":" + S(k) + ",\"r\":" + vec(R) + ",\"v\":" + q(ans) + ",\"w\":" + pts(w.first) + ",\"wa\":" + pts(w.second) + more + "}"); }
  WW prove_R(V R, mpz_class &ans) {
    ropen = R[0] == upv && (R[0] != upu || ropen == 1) ? 2 : 1; auto w = zk_prover::prove_R(R, ans); lieW("open", ropen, ans, w, vpdR::a);
    ops("openx", [&](const std::vector<std::string> &o) { if (o[2] == (ropen == 1 ? "R1" : "R2")) ans = red(ans + Z(o[3])); });
    open("oR", ropen, R, ans, w); return w; }
  WW prove_mask(V R, mpz_class &ans) {
    auto w = zk_prover::prove_mask(R, ans); lieW("open", 3, ans, w, vpd_test::a);
    ops("openx", [&](const std::vector<std::string> &o) { if (o[2] == "M") ans = red(ans + Z(o[3])); });
    peek_put(lay, 2, 0, red(R.back()));
    open("oM", 3, R, ans, w); return w; }
  WW prove_input(V R, mpz_class &ans, mpz_class zz) {
    lay = 0; auto w = zk_prover::prove_input(R, ans, zz); lieW("open", 4, ans, w, input_vpd::a);
    open("oI", 4, R, ans, w, ",\"z\":" + q(zz)); return w; }
};
}
class libra_traced_prover : public H::traced_prover {};
class libra_traced_transcript : public H::test_transcript {};

#define zk_prover libra_traced_prover
#define proof_transcript libra_traced_transcript
#define main libra_main
#ifdef REPO_VERIFIER
#include REPO_VERIFIER
#include REPO_MAIN
#else
#include "../src/linear_gkr/zk_verifier.cpp"
#include "../src/linear_gkr/main_zk.cpp"
#endif
#undef main
#undef proof_transcript
#undef zk_prover

extern "C" void __real___gmpz_urandomm(mpz_ptr, gmp_randstate_ptr, mpz_srcptr);
extern "C" void __wrap___gmpz_urandomm(mpz_ptr x, gmp_randstate_ptr st, mpz_srcptr n) {
  __real___gmpz_urandomm(x, st, n);
  if (H::shm->ngmp++ == H::gflip_at) { mpz_class y(x); y += 1; mpz_mod(x, y.get_mpz_t(), n); } }

namespace H {
int run_plan(int argc, char **argv) {
  auto cases = load(argv[1]); FILE *out = fopen(argv[2], "w");
  log_init(); peek = (PeekT *)mmap(0, sizeof(PeekT), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (auto &c : cases) {
    CUR = c;
    { std::ofstream f("circuit.txt"); f << c.file; }
    for (auto &a : c.aux) { std::ofstream f(a.first); f << a.second; }
    ctl = 0; cpos = 0;
    auto m = c.get("chal");
    auto prep = [&]() { cst = 99; cpos = 0; if (m.size() > 1) {
      if (m[1] == "seed") { ctl = 1; cst = strtoull(m[2].c_str(), 0, 10) * 31337 + 5; }
      else if (m[1] == "pat") { ctl = 2; cpat.clear(); for (size_t i = 2; i < m.size(); ++i) cpat.push_back(atoi(m[i].c_str())); }
      else if (m[1] == "mix") { ctl = 3; cst = strtoull(m[2].c_str(), 0, 10) + 17; } } };
    auto go = [&](bool pk) { log_reset(); return run_child([&, pk]() { peeking = pk; set_rand(c); prep();
      static char a0[] = "zk", a1[] = "circuit.txt", a2[] = "meta.txt", a3[] = "result.txt"; char *av[] = {a0, a1, a2, a3, 0}; libra_main(4, av); }); };
    if (c.has("peek")) { memset(peek, 0, sizeof(PeekT)); go(true); }
    unlink("proof.bin");
    Outcome o = go(false);
    std::string evs(shm->buf, shm->len);
    fprintf(out, "{\"id\":\"%s\",\"ev\":[%s],\"verdict\":\"%s\",\"nrand\":%d,\"ngmp\":%d,\"ovf\":%d}\n", c.id.c_str(), evs.c_str(), verdict(o).c_str(), shm->nrand, shm->ngmp, shm->overflow);
    fflush(out);
  }
  fclose(out); return 0; }
}
int main(int argc, char **argv) { return H::run_plan(argc, argv); }
