#include "../inc/deep.h"
namespace gb {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_1(int a) {
  g0 += a + 1;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_1_1(int a) {
  g0 += a + 8;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_2_1(int a) {
  g0 += a + 15;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_3_1(int a) {
  g0 += a + 22;
  if (a > 3)
    return deep_one(&g0, a);
  return g0;
}
}
extern "C" int gb_c0(int a) { return gb::f0_0_1(a) + 1; }
