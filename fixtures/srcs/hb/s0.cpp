#include "../inc/deep.h"
namespace hb {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_2(int a) {
  g0 += a + 2;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_1_2(int a) {
  g0 += a + 9;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_2_2(int a) {
  g0 += a + 16;
  return g0;
}
}
extern "C" int hb_c0(int a) { return hb::f0_0_2(a) + 1; }
