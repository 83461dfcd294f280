#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace w1 {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_3(int a) {
  g1 += a + 3;
  if (a > 0)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_1_3(int a) {
  g1 += a + 10;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_2_3(int a) {
  g1 += a + 17;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_3_3(int a) {
  g1 += a + 24;
  if (a > 3)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_4_3(int a) {
  g1 += a + 31;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_5_3(int a) {
  g1 += a + 38;
  return g1;
}
__attribute__((noinline)) int f1_6_3(int a) {
  g1 += a + 45;
  if (a > 6)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_7_3(int a) {
  g1 += a + 52;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_8_3(int a) {
  g1 += a + 59;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
}
extern "C" int w1_c1(int a) { return w1::f1_0_3(a) + 1; }
