#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace n0 {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_9(int a) {
  g1 += a + 9;
  if (a > 0)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_1_9(int a) {
  g1 += a + 16;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_2_9(int a) {
  g1 += a + 23;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
}
extern "C" int n0_c1(int a) { return n0::f1_0_9(a) + 1; }
