// Pre-included by the C24 extraction: the tests of "is this a constant expression" in the library are answered VP_CE
// (1: as in a constant expression, 0: as at run time).  The standard headers come first and are left as they are.
#include <bits/stdc++.h>
namespace std { constexpr bool vp_constant_evaluated() noexcept { return VP_CE; } }
#define is_constant_evaluated vp_constant_evaluated
#define __builtin_is_constant_evaluated() (VP_CE)
