#include "../inc/deep.h"
namespace m0 {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_0(int a) {
  g0 += a + 0;
  if (a > 0)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_1_0(int a) {
  g0 += a + 7;
  g0 ^= a << 1;
  return g0;
}
}
extern "C" int m0_c0(int a) { return m0::f0_0_0(a) + 1; }
