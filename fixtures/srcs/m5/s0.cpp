#include "../inc/deep.h"
namespace m5 {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_5(int a) {
  g0 += a + 5;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_1_5(int a) {
  g0 += a + 12;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_2_5(int a) {
  g0 += a + 19;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_3_5(int a) {
  g0 += a + 26;
  if (a > 3)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_4_5(int a) {
  g0 += a + 33;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_5_5(int a) {
  g0 += a + 40;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_6_5(int a) {
  g0 += a + 47;
  if (a > 6)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
}
extern "C" int m5_c0(int a) { return m5::f0_0_5(a) + 1; }
