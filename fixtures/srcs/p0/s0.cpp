#include "../inc/deep.h"
namespace p0 {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_0(int a) {
  g0 += a + 0;
  if (a > 0)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_1_0(int a) {
  g0 += a + 7;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_2_0(int a) {
  g0 += a + 14;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_3_0(int a) {
  g0 += a + 21;
  if (a > 3)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
}
extern "C" int p0_c0(int a) { return p0::f0_0_0(a) + 1; }
