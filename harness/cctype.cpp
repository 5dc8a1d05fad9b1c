// Wrappers under contract for cest's character classification.
#include <cest/cctype.hpp>
extern "C" {
int c_isalnum(int c) { return cest::isalnum(c); }
int c_isupper(int c) { return cest::isupper(c); }
}
