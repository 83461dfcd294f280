#include "../inc/deep.h"
namespace p1 {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_1(int a) {
  g0 += a + 1;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_1_1(int a) {
  g0 += a + 8;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_2_1(int a) {
  g0 += a + 15;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_3_1(int a) {
  g0 += a + 22;
  if (a > 3)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_4_1(int a) {
  g0 += a + 29;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_5_1(int a) {
  g0 += a + 36;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_6_1(int a) {
  g0 += a + 43;
  if (a > 6)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_7_1(int a) {
  g0 += a + 50;
  return g0;
}
__attribute__((noinline)) int f0_8_1(int a) {
  g0 += a + 57;
  g0 ^= a << 1;
  return g0;
}
}
extern "C" int p1_c0(int a) { return p1::f0_0_1(a) + 1; }
