#include "../inc/deep.h"
namespace gd {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_5(int a) {
  g0 += a + 5;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_1_5(int a) {
  g0 += a + 12;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_2_5(int a) {
  g0 += a + 19;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
}
extern "C" int gd_c0(int a) { return gd::f0_0_5(a) + 1; }
