#include "../inc/deep.h"
namespace x1 {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_2(int a) {
  g0 += a + 2;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_1_2(int a) {
  g0 += a + 9;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_2_2(int a) {
  g0 += a + 16;
  return g0;
}
__attribute__((noinline)) int f0_3_2(int a) {
  g0 += a + 23;
  if (a > 3)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_4_2(int a) {
  g0 += a + 30;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
}
extern "C" int x1_c0(int a) { return x1::f0_0_2(a) + 1; }
