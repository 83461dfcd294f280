#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace x1 {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_2(int a) {
  g1 += a + 2;
  if (a > 0)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_1_2(int a) {
  g1 += a + 9;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_2_2(int a) {
  g1 += a + 16;
  return g1;
}
__attribute__((noinline)) int f1_3_2(int a) {
  g1 += a + 23;
  if (a > 3)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_4_2(int a) {
  g1 += a + 30;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
}
extern "C" int x1_c1(int a) { return x1::f1_0_2(a) + 1; }
