// Stand-in for the pairing library (ate-pairing's bn.h, which is not in the
// repository).  BN254's group order is the modulus of prime_field, so a group
// element is represented by its discrete logarithm: g1^x is x, the pairing
// of g2^y and g1^x is x*y, multiplication in the target group is addition.
// Every group equation the code checks holds here iff it holds in the groups,
// and the discrete logarithms are what the specification computes with.
#pragma once
#include <cassert>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <iostream>
#include <gmp.h>
#include <gmpxx.h>

namespace bn_model {
typedef mp_limb_t L4[4];
inline const mp_limb_t *order() {
  static L4 m; static bool ok = false;
  if (!ok) { mpz_class p("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
    for (int i = 0; i < 4; ++i) { mpz_class t = (p >> (64 * i)) & mpz_class("ffffffffffffffff", 16); m[i] = t.get_ui(); } ok = true; }
  return m; }
struct Scalar {               // an element of Z/order
  mp_limb_t v[4];
  void zero() { v[0] = v[1] = v[2] = v[3] = 0; }
  void set(const mpz_class &z0) { mpz_class z, p; mpz_class q("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
    mpz_mod(z.get_mpz_t(), z0.get_mpz_t(), q.get_mpz_t());
    for (int i = 0; i < 4; ++i) v[i] = mpz_getlimbn(z.get_mpz_t(), i) * (i < (int)mpz_size(z.get_mpz_t())); }
  mpz_class get() const { mpz_class z; mpz_import(z.get_mpz_t(), 4, -1, 8, 0, 0, v); return z; }
  void add(const Scalar &o) { mpn_add_n(v, v, o.v, 4); if (mpn_cmp(v, order(), 4) >= 0) mpn_sub_n(v, v, order(), 4); }
  void sub(const Scalar &o) { if (mpn_sub_n(v, v, o.v, 4)) mpn_add_n(v, v, order(), 4); }
  void mul(const Scalar &o) { mp_limb_t t[8], q[8]; mpn_mul_n(t, v, o.v, 4); mpn_tdiv_qr(q, v, 0, t, 8, order(), 4); }
  bool eq(const Scalar &o) const { return memcmp(v, o.v, 32) == 0; }
};
}

namespace mie {
struct Vuint {
  mpz_class z;
  Vuint() {}
  explicit Vuint(const char *s) : z(s, 10) {}
  explicit Vuint(const std::string &s) : z(s, 10) {}
  Vuint(unsigned x) : z(x) {}
};
}

namespace bn {
struct CurveParam { int b; bool operator==(const CurveParam &o) const { return b == o.b; } bool operator!=(const CurveParam &o) const { return b != o.b; } };
static const CurveParam CurveFp254BNb = {2};
struct Param { static void init(const CurveParam &) {} static void init(const CurveParam &, int) {} };
struct Fp { mpz_class z; Fp() {} Fp(int x) : z(x) {} explicit Fp(const char *s) : z(s, 10) {} explicit Fp(const std::string &s) : z(s, 10) {} };
struct Fp2 { Fp a, b; Fp2() {} Fp2(const Fp &x, const Fp &y) : a(x), b(y) {} explicit Fp2(const Fp &x) : a(x) {} };

// POD of the size of three coordinates of four words, like the library's
template<int PAD> struct Ec {
  bn_model::Scalar s; unsigned char pad[PAD];
  Ec() { clear(); }
  void clear() { s.zero(); memset(pad, 0, PAD); }
  Ec operator+(const Ec &o) const { Ec r = *this; r.s.add(o.s); return r; }
  Ec operator-(const Ec &o) const { Ec r = *this; r.s.sub(o.s); return r; }
  Ec operator-() const { Ec r; r.s.sub(s); return r; }
  Ec &operator+=(const Ec &o) { s.add(o.s); return *this; }
  Ec &operator-=(const Ec &o) { s.sub(o.s); return *this; }
  Ec operator*(const mie::Vuint &k) const { Ec r = *this; bn_model::Scalar t; t.set(k.z); r.s.mul(t); return r; }
  Ec operator*(int k) const { Ec r = *this; bn_model::Scalar t; t.set(mpz_class(k)); r.s.mul(t); return r; }
  Ec &operator*=(const mie::Vuint &k) { *this = *this * k; return *this; }
  bool operator==(const Ec &o) const { return s.eq(o.s); }
  bool operator!=(const Ec &o) const { return !s.eq(o.s); }
  bool isZero() const { return s.v[0] == 0 && s.v[1] == 0 && s.v[2] == 0 && s.v[3] == 0; }
  void normalize() {}
};
struct Ec1 : Ec<64> {
  Ec1() {}
  Ec1(const Ec<64> &o) : Ec<64>(o) {}
  Ec1(int, int) { clear(); s.v[0] = 1; }                 // the base point
  Ec1(const Fp &, const Fp &) { clear(); s.v[0] = 1; }
};
struct Ec2 : Ec<160> {
  Ec2() {}
  Ec2(const Ec<160> &o) : Ec<160>(o) {}
  Ec2(const Fp2 &, const Fp2 &) { clear(); s.v[0] = 1; }
};
struct Fp12 {
  bn_model::Scalar s;
  Fp12() { s.zero(); }
  Fp12(int one) { s.zero(); if (one != 1) abort(); }
  Fp12 &operator*=(const Fp12 &o) { s.add(o.s); return *this; }
  Fp12 operator*(const Fp12 &o) const { Fp12 r = *this; r.s.add(o.s); return r; }
  bool operator==(const Fp12 &o) const { return s.eq(o.s); }
  bool operator!=(const Fp12 &o) const { return !s.eq(o.s); }
};
inline void opt_atePairing(Fp12 &f, const Ec2 &Q, const Ec1 &P) { f.s = Q.s; f.s.mul(P.s); }
}
