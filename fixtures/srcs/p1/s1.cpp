#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace p1 {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_1(int a) {
  g1 += a + 1;
  if (a > 0)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_1_1(int a) {
  g1 += a + 8;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_2_1(int a) {
  g1 += a + 15;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_3_1(int a) {
  g1 += a + 22;
  if (a > 3)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_4_1(int a) {
  g1 += a + 29;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_5_1(int a) {
  g1 += a + 36;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_6_1(int a) {
  g1 += a + 43;
  if (a > 6)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_7_1(int a) {
  g1 += a + 50;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_8_1(int a) {
  g1 += a + 57;
  g1 ^= a << 1;
  return g1;
}
}
extern "C" int p1_c1(int a) { return p1::f1_0_1(a) + 1; }
