#include "../inc/deep.h"
namespace n0 {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_9(int a) {
  g0 += a + 9;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_1_9(int a) {
  g0 += a + 16;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_2_9(int a) {
  g0 += a + 23;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
}
extern "C" int n0_c0(int a) { return n0::f0_0_9(a) + 1; }
