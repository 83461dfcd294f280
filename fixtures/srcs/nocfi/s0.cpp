#include "../inc/deep.h"
namespace nocfi {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_4(int a) {
  g0 += a + 4;
  if (a > 0)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_1_4(int a) {
  g0 += a + 11;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_2_4(int a) {
  g0 += a + 18;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
}
extern "C" int nocfi_c0(int a) { return nocfi::f0_0_4(a) + 1; }
