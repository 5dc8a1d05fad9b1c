// Wrappers under contract: the approximated real functions of cest's cmath, and the recursive helpers they are built from.
#include <limits>
#include <cest/cmath.hpp>
extern "C" {
double m_sin(double x) { return cest::sin(x); }
double m_cos(double x) { return cest::cos(x); }
double m_sinh(double x) { return cest::sinh(x); }
double m_cosh(double x) { return cest::cosh(x); }
double m_exp(double x) { return cest::exp(x); }
double m_log(double x) { return cest::log(x); }
double m_atan(double x) { return cest::atan(x); }
double m_atan2(double y, double x) { return cest::atan2(y, x); }
}
