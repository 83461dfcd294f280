#include "../inc/deep.h"
namespace m4 {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_4(int a) {
  g0 += a + 4;
  if (a > 0)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_1_4(int a) {
  g0 += a + 11;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_2_4(int a) {
  g0 += a + 18;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_3_4(int a) {
  g0 += a + 25;
  if (a > 3)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_4_4(int a) {
  g0 += a + 32;
  return g0;
}
__attribute__((noinline)) int f0_5_4(int a) {
  g0 += a + 39;
  g0 ^= a << 1;
  return g0;
}
}
extern "C" int m4_c0(int a) { return m4::f0_0_4(a) + 1; }
