#include "../inc/deep.h"
namespace m5 {
extern volatile int g2;
volatile int g2;
__attribute__((noinline)) int f2_0_5(int a) {
  g2 += a + 5;
  if (a > 0)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_1_5(int a) {
  g2 += a + 12;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_2_5(int a) {
  g2 += a + 19;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_3_5(int a) {
  g2 += a + 26;
  if (a > 3)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_4_5(int a) {
  g2 += a + 33;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_5_5(int a) {
  g2 += a + 40;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_6_5(int a) {
  g2 += a + 47;
  if (a > 6)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
}
extern "C" int m5_c2(int a) { return m5::f2_0_5(a) + 1; }
