#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace m5 {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_5(int a) {
  g1 += a + 5;
  if (a > 0)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_1_5(int a) {
  g1 += a + 12;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_2_5(int a) {
  g1 += a + 19;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_3_5(int a) {
  g1 += a + 26;
  if (a > 3)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_4_5(int a) {
  g1 += a + 33;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_5_5(int a) {
  g1 += a + 40;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_6_5(int a) {
  g1 += a + 47;
  if (a > 6)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
}
extern "C" int m5_c1(int a) { return m5::f1_0_5(a) + 1; }
