// Executes field and polynomial operations of the repository on operands read
// from a plan ("op hex hex ...", one per line) and records the stored results.
#include "common.h"
#include "linear_gkr/polynomial.h"
namespace H {
static fe rawfe(const mpz_class &z) { fe r(0); unsigned long long w[8];
  for (int i = 0; i < 8; ++i) { mpz_class t = (z >> (64 * i)) & mpz_class("ffffffffffffffff", 16); w[i] = t.get_ui(); }
  r.value.lo = ((__uint128_t)w[1] << 64) | w[0]; r.value.mid = ((__uint128_t)w[3] << 64) | w[2];
  r.value.hi.lo = w[4]; r.value.hi.mid = w[5]; r.value.hi.hi = ((__uint128_t)w[7] << 64) | w[6]; return r; }
static std::string R(const fe &x) { return "\"" + hex(raw(x)) + "\""; }
static std::string Q(const std::string &s) { return "\"" + s + "\""; }
template<class T> static std::string two(const T *a, int n) { std::string s; for (int i = 0; i < n; ++i) { if (i) s += ","; s += R(a[i]); } return s; }
int run_plan(int argc, char **argv) {
  log_init(); log_reset();
  prime_field::init(PSTR, 10);
  std::ifstream f(argv[1]); FILE *out = fopen(argv[2], "w"); std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string op, w; is >> op; std::vector<mpz_class> z; std::vector<fe> a;
    std::vector<std::string> ws;
    while (is >> w) { ws.push_back(w); z.push_back(mpz_class(w, 16)); a.push_back(rawfe(z.back())); }
    std::string r;
    if (op == "add") r = R(a[0] + a[1]);
    else if (op == "sub") r = R(a[0] - a[1]);
    else if (op == "mul") r = R(a[0] * a[1]);
    else if (op == "eq") r = Q(a[0] == a[1] ? "1" : "0") + "," + Q(a[0] != a[1] ? "1" : "0");
    else if (op == "int") r = z[0] < mpz_class("80000000", 16) ? R(fe((int)z[0].get_si())) : R(fe((unsigned long long)z[0].get_ui()));
    else if (op == "ull") { op = "int"; r = R(fe((unsigned long long)z[0].get_ui())); }
    else if (op == "neg") r = z[0] <= mpz_class("80000000", 16) ? R(fe((int)-(long long)z[0].get_ui())) : R(fe((long long)(0 - z[0].get_ui())));
    else if (op == "nomod") r = R(a[0].mul_non_mod(a[1]));
    else if (op == "mod") { fe x; x.value = a[0].value % prime_field::mod; r = R(x); }
    else if (op == "wadd") { fe x; x.value = a[0].value + a[1].value; r = R(x); }
    else if (op == "wsub") { fe x; x.value = a[0].value - a[1].value; r = R(x); }
    else if (op == "cmp") r = Q(a[0].value < a[1].value ? "1" : "0") + "," + Q(a[0].value > a[1].value ? "1" : "0") + "," + Q(a[0].value >= a[1].value ? "1" : "0") + "," + Q(a[0].value != a[1].value ? "1" : "0");
    else if (op == "bits") { auto b = a[0].bit_stream(); std::string s; for (bool x : b) s += x ? '1' : '0';
      r = Q(std::string(a[0].to_string(), 512)) + "," + Q(s) + "," + Q(a[0].to_gmp_class().get_str(16)); }
    else if (op == "len") r = Q(std::to_string(a[0].bitLen()));
    else if (op == "random") { rmode = 1; rpos = 0; rpat.clear(); for (auto &x : z) rpat.push_back((int)x.get_si()); r = R(prime_field::random()); }
    else if (op == "padd") { int n = a.size() / 2; std::vector<fe> o;
      if (n == 2) { auto p = linear_poly(a[1], a[0]) + linear_poly(a[3], a[2]); o = {p.b, p.a}; }
      if (n == 3) { auto p = quadratic_poly(a[2], a[1], a[0]) + quadratic_poly(a[5], a[4], a[3]); o = {p.c, p.b, p.a}; }
      if (n == 4) { auto p = cubic_poly(a[3], a[2], a[1], a[0]) + cubic_poly(a[7], a[6], a[5], a[4]); o = {p.d, p.c, p.b, p.a}; }
      if (n == 5) { auto p = quadruple_poly(a[4], a[3], a[2], a[1], a[0]) + quadruple_poly(a[9], a[8], a[7], a[6], a[5]); o = {p.e, p.d, p.c, p.b, p.a}; }
      if (n == 6) { auto p = quintuple_poly(a[5], a[4], a[3], a[2], a[1], a[0]) + quintuple_poly(a[11], a[10], a[9], a[8], a[7], a[6]); o = {p.f, p.e, p.d, p.c, p.b, p.a}; }
      r = two(o.data(), n); }
    else if (op == "pmul11") { auto p = linear_poly(a[1], a[0]) * linear_poly(a[3], a[2]); std::vector<fe> o = {p.c, p.b, p.a}; r = two(o.data(), 3); }
    else if (op == "pmul21") { auto p = quadratic_poly(a[2], a[1], a[0]) * linear_poly(a[4], a[3]); std::vector<fe> o = {p.d, p.c, p.b, p.a}; r = two(o.data(), 4); }
    else if (op == "pconst") { linear_poly p(a[0]); std::vector<fe> o = {p.b, p.a}; r = two(o.data(), 2); }
    else if (op == "peval") { int n = (int)a.size() - 1; fe x = a[n]; fe v;
      if (n == 2) v = linear_poly(a[1], a[0]).eval(x);
      if (n == 3) v = quadratic_poly(a[2], a[1], a[0]).eval(x);
      if (n == 4) v = cubic_poly(a[3], a[2], a[1], a[0]).eval(x);
      if (n == 5) v = quadruple_poly(a[4], a[3], a[2], a[1], a[0]).eval(x);
      if (n == 6) v = quintuple_poly(a[5], a[4], a[3], a[2], a[1], a[0]).eval(x);
      r = R(v); }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); return 3; }
    std::string as; for (size_t i = 0; i < z.size(); ++i) { if (i) as += ","; as += Q(hex(z[i])); }
    fprintf(out, "[\"%s\",[%s],[%s]]\n", op.c_str(), as.c_str(), r.c_str());
  }
  fclose(out); return 0; }
}
int main(int argc, char **argv) { return H::run_plan(argc, argv); }
