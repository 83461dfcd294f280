#include "../inc/deep.h"
namespace ge {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_3(int a) {
  g0 += a + 3;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_1_3(int a) {
  g0 += a + 10;
  return g0;
}
__attribute__((noinline)) int f0_2_3(int a) {
  g0 += a + 17;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_3_3(int a) {
  g0 += a + 24;
  if (a > 3)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_4_3(int a) {
  g0 += a + 31;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_5_3(int a) {
  g0 += a + 38;
  return g0;
}
__attribute__((noinline)) int f0_6_3(int a) {
  g0 += a + 45;
  if (a > 6)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
}
extern "C" int ge_c0(int a) { return ge::f0_0_3(a) + 1; }
