#include "../inc/deep.h"
namespace m1 {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_1(int a) {
  g0 += a + 1;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_1_1(int a) {
  g0 += a + 8;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_2_1(int a) {
  g0 += a + 15;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
}
extern "C" int m1_c0(int a) { return m1::f0_0_1(a) + 1; }
