// Replay driver for C21: every int in a wide band, all multiples of 256 nearby, and extremes.
#include "common.hpp"
#include <cest/cctype.hpp>
using namespace vp;
static void one(long c) {
  g_hist.clear(); say("ch=%ld", c); g_cases++; int ch = (int)c;
  bool up = ch >= 'A' && ch <= 'Z', al = up || (ch >= 'a' && ch <= 'z') || (ch >= '0' && ch <= '9');
  REQ((cest::isalnum(ch) != 0) == al); REQ((cest::isupper(ch) != 0) == up);
}
int main() {
  for (long c = -70000; c <= 70000; c++) one(c);
  for (int k = 8; k < 32; k++) for (long c = -130; c < 256; c++) { one((1l << k) + c); one(-(1l << k) + c); }
  Rng r(seed()); for (int i = 0; i < (thorough() ? 2000000 : 50000); i++) one((int)r.next());
  printf("PASS %ld cases\n", g_cases);
}
