// Wrappers under contract: each calls exactly one operation of the real cest::complex<double>.
// <cest/complex.hpp> names std functions and cest's scalar overloads that its own includes do not all bring in.
#include <cmath>
#include <cest/cmath.hpp>
#include <cest/istream.hpp>
#include <cest/complex.hpp>
using C = cest::complex<double>;
using F = cest::complex<float>;
template struct cest::complex<double>;
extern "C" {
void cx_ctor(C* z, double a, double b) { ::new (z) C(a, b); }
void cx_ctor1(C* z, double a) { ::new (z) C(a); }
void cx_ctor0(C* z) { ::new (z) C(); }
void cx_copy(C* z, const C* x) { ::new (z) C(*x); }
double cx_real(const C* z) { return z->real(); }
double cx_imag(const C* z) { return z->imag(); }
double cx_freal(const C* z) { return cest::real(*z); }
double cx_fimag(const C* z) { return cest::imag(*z); }
void cx_set_real(C* z, double a) { z->real(a); }
void cx_set_imag(C* z, double a) { z->imag(a); }
C* cx_assign_s(C* z, const double* a) { return &(*z = *a); }
C* cx_assign(C* z, const C* x) { return &(*z = *x); }
C* cx_add_s(C* z, const double* a) { return &(*z += *a); }
C* cx_sub_s(C* z, const double* a) { return &(*z -= *a); }
C* cx_mul_s(C* z, const double* a) { return &(*z *= *a); }
C* cx_div_s(C* z, const double* a) { return &(*z /= *a); }
C* cx_add(C* z, const C* x) { return &(*z += *x); }
C* cx_sub(C* z, const C* x) { return &(*z -= *x); }
C* cx_mul(C* z, const C* x) { return &(*z *= *x); }
C* cx_div(C* z, const C* x) { return &(*z /= *x); }
void cx_plus(C* r, const C* x, const C* y) { ::new (r) C(*x + *y); }
void cx_minus(C* r, const C* x, const C* y) { ::new (r) C(*x - *y); }
void cx_times(C* r, const C* x, const C* y) { ::new (r) C(*x * *y); }
void cx_over(C* r, const C* x, const C* y) { ::new (r) C(*x / *y); }
void cx_plus_s(C* r, const C* x, const double* y) { ::new (r) C(*x + *y); }
void cx_minus_s(C* r, const C* x, const double* y) { ::new (r) C(*x - *y); }
void cx_times_s(C* r, const C* x, const double* y) { ::new (r) C(*x * *y); }
void cx_over_s(C* r, const C* x, const double* y) { ::new (r) C(*x / *y); }
void cx_s_plus(C* r, const double* x, const C* y) { ::new (r) C(*x + *y); }
void cx_s_minus(C* r, const double* x, const C* y) { ::new (r) C(*x - *y); }
void cx_s_times(C* r, const double* x, const C* y) { ::new (r) C(*x * *y); }
void cx_s_over(C* r, const double* x, const C* y) { ::new (r) C(*x / *y); }
void cx_pos(C* r, const C* x) { ::new (r) C(+*x); }
void cx_neg(C* r, const C* x) { ::new (r) C(-*x); }
void cx_conj(C* r, const C* x) { ::new (r) C(cest::conj(*x)); }
double cx_norm(const C* x) { return cest::norm(*x); }
void cx_conv(C* z, const F* x) { ::new (z) C(*x); }
C* cx_assign_f(C* z, const F* x) { return &(*z = *x); }
C* cx_add_f(C* z, const F* x) { return &(*z += *x); }
C* cx_sub_f(C* z, const F* x) { return &(*z -= *x); }
C* cx_mul_f(C* z, const F* x) { return &(*z *= *x); }
C* cx_div_f(C* z, const F* x) { return &(*z /= *x); }
bool cx_eq(const C* x, const C* y) { return *x == *y; }
bool cx_ne(const C* x, const C* y) { return *x != *y; }
bool cx_eq_s(const C* x, const double* y) { return *x == *y; }
bool cx_s_eq(const double* y, const C* x) { return *y == *x; }
bool cx_ne_s(const C* x, const double* y) { return *x != *y; }
bool cx_s_ne(const double* y, const C* x) { return *y != *x; }
void cx_powu(C* r, const C* x, unsigned n) { ::new (r) C(cest::__complex_pow_unsigned(*x, n)); }
void cx_pow(C* r, const C* x, int n) { ::new (r) C(cest::pow(*x, n)); }
}
