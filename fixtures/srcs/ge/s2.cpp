#include "../inc/deep.h"
namespace ge {
extern volatile int g2;
volatile int g2;
__attribute__((noinline)) int f2_0_3(int a) {
  g2 += a + 3;
  if (a > 0)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_1_3(int a) {
  g2 += a + 10;
  return g2;
}
__attribute__((noinline)) int f2_2_3(int a) {
  g2 += a + 17;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_3_3(int a) {
  g2 += a + 24;
  if (a > 3)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_4_3(int a) {
  g2 += a + 31;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_5_3(int a) {
  g2 += a + 38;
  return g2;
}
__attribute__((noinline)) int f2_6_3(int a) {
  g2 += a + 45;
  if (a > 6)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
}
extern "C" int ge_c2(int a) { return ge::f2_0_3(a) + 1; }
