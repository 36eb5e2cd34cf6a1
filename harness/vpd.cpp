// Runs the three commitment schemes on a plan of cases: commit (twice), check,
// open (twice), verify, and verify again after alterations.  The schemes are
// the repository's; the pairing library is harness/zk/bn.h.
#include "common.h"
#include "VPD/input_vpd.h"
#include "VPD/vpdR.h"
#include "VPD/vpd_test.h"
namespace input_vpd { extern mpz_class a; extern std::vector<mpz_class> s; }
namespace vpdR { extern mpz_class a; extern std::vector<mpz_class> s; }
namespace vpd_test { extern mpz_class a; extern std::vector<mpz_class> s; }
namespace H {
typedef std::vector<mpz_class> V;
typedef std::vector<bn::Ec1> VE;
static std::string pt(const bn::Ec1 &p) { return q(p.s.get()); }
static std::string pts(const VE &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += pt(v[i]); } return s + "]"; }
static mpz_class Z(const std::string &s) { return s[0] == '-' ? mpz_class(-mpz_class(s.substr(1), 16)) : mpz_class(s, 16); }
static void addlog(bn::Ec1 &p, const mpz_class &d) { p.s.set(p.s.get() + d); }

// the scheme's random draws (keys, blinding), optionally given by the plan: the equations hold for every key
static V draws, drawn; static size_t ndraw;
extern "C" void __real___gmpz_urandomm(mpz_ptr, gmp_randstate_ptr, mpz_srcptr);
extern "C" void __wrap___gmpz_urandomm(mpz_ptr x, gmp_randstate_ptr st, mpz_srcptr n) {
  __real___gmpz_urandomm(x, st, n);
  if (ndraw < draws.size()) mpz_mod(x, draws[ndraw++].get_mpz_t(), n);
  drawn.push_back(mpz_class(x)); }
// what a function of the draws returns, and what it returns when one draw is altered
static std::string indep(std::function<VE()> f) {
  draws.clear(); ndraw = 0; drawn.clear(); VE b = f(); V t = drawn; std::string x;
  for (size_t k = 0; k < t.size(); ++k) { draws = t; draws[k] += 1; ndraw = 0; x += (k ? "," : "") + pts(f()); }
  draws.clear(); ndraw = 0;
  return "{\"b\":" + pts(b) + ",\"x\":[" + x + "]}"; }
static bn::Ec1 gexp(const mpz_class &x) { bn::Ec1 p; p.s.set(x); return p; }

struct Com { bn::Ec1 d, da, d2, d2a; mpz_class rf, rf2; V poly;
  std::string js() const { return "{\"d\":[" + pt(d) + "," + pt(da) + "],\"d2\":[" + pt(d2) + "," + pt(d2a) + "],\"rf\":[" + q(rf) + "," + q(rf2) + "]}"; } };
struct Opn { V r; mpz_class z, v; VE w, wa; bn::Ec1 d, d2;
  std::string js(bool ok, bool hon) const { return "{\"r\":" + vec(r) + ",\"z\":" + q(z) + ",\"v\":" + q(v) + ",\"w\":" + pts(w) + ",\"wa\":" + pts(wa) +
    ",\"d\":" + pt(d) + ",\"d2\":" + pt(d2) + ",\"ok\":" + (ok ? "true" : "false") + ",\"hon\":" + (hon ? "true" : "false") + "}"; } };
static char sch; static V POLY, M;
static mpz_class keya() { return sch == 'I' ? input_vpd::a : sch == 'R' ? vpdR::a : vpd_test::a; }
static V keys() { return sch == 'I' ? input_vpd::s : sch == 'R' ? vpdR::s : vpd_test::s; }
static Com commit() {
  Com c; c.poly = POLY; c.rf2 = 0;
  if (sch == 'I') { c.poly.push_back(0); auto p = input_vpd::commit(c.d, c.da, c.d2, c.d2a, c.poly, M); c.rf = p.first; c.rf2 = p.second; }
  else if (sch == 'R') c.rf = vpdR::commit(c.d, c.da, c.poly); else c.rf = vpd_test::commit(c.d, c.da, c.poly);
  return c; }
static bool check(const Com &c) { return sch == 'I' ? input_vpd::check_commit(c.d, c.da, c.d2, c.d2a) : sch == 'R' ? vpdR::check_commit(c.d, c.da) : vpd_test::check_commit(c.d, c.da); }
static Opn open_(Com &c, const V &r, const mpz_class &z) {
  Opn o; o.r = r; o.z = z; o.d = c.d; o.d2 = c.d2; V poly = c.poly, m = M;
  if (sch == 'I') input_vpd::prove(r, o.v, poly, m, o.w, o.wa, c.rf, c.rf2, z);
  else if (sch == 'R') vpdR::prove(r, o.v, poly, o.w, o.wa, c.rf); else vpd_test::prove(r, o.v, poly, o.w, o.wa, c.rf);
  return o; }
static bool verify(Opn o) {
  if (sch == 'I') return input_vpd::verify(o.r, o.d, o.d2, o.z, o.v, o.w, o.wa);
  if (sch == 'R') return vpdR::verify(o.r, o.d, o.v, o.w, o.wa);
  return vpd_test::verify(o.r, o.d, o.v, o.w, o.wa); }
static int I(const std::string &s) { return atoi(s.c_str()); }

static void body(const Case &c) {
  sch = c.get("scheme")[1][0]; int d = I(c.get("vars")[1]);
  auto lst = [](const std::vector<std::string> &w) { V v; for (size_t i = 1; i < w.size(); ++i) v.push_back(red(Z(w[i]))); return v; };
  POLY = lst(c.get("poly")); M = lst(c.get("mask"));
  draws = lst(c.get("draws")); ndraw = 0;
  if (sch == 'I') { input_vpd::environment_init(); input_vpd::KeyGen(d); }
  else if (sch == 'R') { vpdR::environment_init(); vpdR::KeyGen(d); }
  else { vpd_test::environment_init(); vpd_test::KeyGen(d); }
  mpz_class a = keya(); V s = keys();
  Com c1 = commit(), c2 = commit();
  bool ok1 = check(c1);
  std::string cc, op, tw;
  auto com = [&](const Com &x, bool ok, bool hon) { std::string j = x.js(); j.pop_back(); cc += (cc.empty() ? "" : ",") + j + ",\"ok\":" + (ok ? "true" : "false") + ",\"hon\":" + (hon ? "true" : "false") + "}"; };
  com(c1, ok1, true); com(c2, check(c2), true);
  std::vector<Opn> os; V zs = lst(c.get("z"));
  for (auto &o : c.ops) {
    if (o[0] == "point") {
      V r; for (size_t i = 1; i < o.size(); ++i) r.push_back(o[i][0] == 'k' ? s[I(o[i].substr(1))] : red(Z(o[i])));
      mpz_class z = zs.empty() ? mpz_class(0) : zs[os.size() % zs.size()];
      Opn x = open_(c1, r, z), y = open_(c1, r, z); os.push_back(x);
      op += (op.empty() ? "" : ",") + x.js(verify(x), true) + "," + y.js(verify(y), true);
      tw += (tw.empty() ? "[" : ",[") + pts(x.w) + "," + pts(y.w) + "]";
    } else if (o[0] == "calt") {              // calt WHICH D ... on the commitment
      Com x = c1;
      for (size_t i = 1; i + 1 < o.size(); i += 2) { mpz_class D = Z(o[i + 1]);
        if (o[i] == "d") addlog(x.d, D); else if (o[i] == "da") addlog(x.da, D); else if (o[i] == "d2") addlog(x.d2, D); else if (o[i] == "d2a") addlog(x.d2a, D);
        else if (o[i] == "D") { addlog(x.d, D); addlog(x.da, D * a); } else if (o[i] == "D2") { addlog(x.d2, D); addlog(x.d2a, D * a); }
        else if (o[i] == "zero") { x.d = x.d * 0; x.da = x.da * 0; }
        else if (o[i] == "swap") { std::swap(x.d, x.d2); std::swap(x.da, x.d2a); } }
      com(x, check(x), false);
    } else if (o[0] == "alt") {               // alt K {WHAT IDX D}... on opening K
      Opn x = os[I(o[1])];
      for (size_t i = 2; i + 2 < o.size(); i += 3) { mpz_class D = Z(o[i + 2]); int j = I(o[i + 1]); const std::string &k = o[i];
        if (k == "v") x.v = red(x.v + D); else if (k == "r") x.r[j] = red(x.r[j] + D); else if (k == "z") x.z = red(x.z + D);
        else if (k == "w") addlog(x.w[j], D); else if (k == "wa") addlog(x.wa[j], D); else if (k == "W") { addlog(x.w[j], D); addlog(x.wa[j], D * a); }
        else if (k == "d") addlog(x.d, D); else if (k == "d2") addlog(x.d2, D);
        else if (k == "zw") { x.w[j] = x.w[j] * 0; x.wa[j] = x.wa[j] * 0; }
        else if (k == "zwa") { x.w[j] = x.w[j] * 0; addlog(x.wa[j], D); }
        else if (k == "sw") { int n = (int)x.w.size(); std::swap(x.w[j], x.w[(j + 1) % n]); std::swap(x.wa[j], x.wa[(j + 1) % n]); }
        else if (k == "fix") { x.v = red(x.v + D); mpz_class e = -D * inv(s[d]); addlog(x.w[d], e); addlog(x.wa[d], e * a); }   // the equation still holds
        else if (k == "move") { mpz_class e = D * inv(s[j] - x.r[j]), g = -D * inv(s[d]); addlog(x.w[j], e); addlog(x.wa[j], e * a); addlog(x.w[d], g); addlog(x.wa[d], g * a); } }
      op += "," + x.js(verify(x), false);
    } }
  std::string ind;
  if (c.has("indep")) {
    ind = indep([&]() { Com x = commit(); VE v = {x.d}; if (sch == 'I') v.push_back(x.d2); return v; });
    V r = os[0].r; ind += "," + indep([&]() { Opn x = open_(c1, r, os[0].z); VE v = x.w; v.resize(d); return v; });
    if (d < 4) ind += "," + indep([&]() { if (sch == 'I') input_vpd::KeyGen(d); else if (sch == 'R') vpdR::KeyGen(d); else vpd_test::KeyGen(d);
      VE v = {gexp(keya())}; for (auto &y : keys()) v.push_back(gexp(y)); return v; }); }
  ev("\"ind\":[" + ind + "],\"a\":" + q(a) + ",\"s\":" + vec(s) + ",\"poly\":" + vec(POLY) + ",\"m\":" + vec(M) + ",\"cc\":[" + cc + "],\"op\":[" + op + "],\"tw\":[" + tw + "]");
}

int run_plan(int argc, char **argv) {
  auto cases = load(argv[1]); FILE *out = fopen(argv[2], "w"); log_init();
  for (auto &c : cases) {
    log_reset();
    Outcome o = run_child([&]() { set_rand(c); body(c); });
    std::string e(shm->buf, shm->len);
    fprintf(out, "{\"id\":\"%s\",\"done\":%s,\"ovf\":%d%s%s}\n", c.id.c_str(), e.empty() ? "false" : "true", shm->overflow, e.empty() ? "" : ",", e.c_str());
    fflush(out); }
  fclose(out); return 0; }
}
int main(int argc, char **argv) { return H::run_plan(argc, argv); }
