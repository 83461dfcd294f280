#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace m1 {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_1(int a) {
  g1 += a + 1;
  if (a > 0)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_1_1(int a) {
  g1 += a + 8;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_2_1(int a) {
  g1 += a + 15;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
}
extern "C" int m1_c1(int a) { return m1::f1_0_1(a) + 1; }
