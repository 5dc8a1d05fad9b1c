// Wrappers under contract: each calls exactly one of cest's exact math functions.
#include <limits>
#include <cest/cmath.hpp>
#include <cest/cstdlib.hpp>
extern "C" {
double m_abs(double x) { return cest::abs(x); }
double m_fabs(double x) { return cest::fabs(x); }
int m_floor(double x) { return cest::floor(x); }
int m_ceil(double x) { return cest::ceil(x); }
double m_pow(double x, int n) { return cest::pow(x, n); }
double m_sqrt(double x) { return cest::sqrt(x); }
double m_sqrt_helper(double x, double g) { return cest::sqrt_helper(x, g); }
}
