#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace m4 {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_4(int a) {
  g1 += a + 4;
  if (a > 0)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_1_4(int a) {
  g1 += a + 11;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_2_4(int a) {
  g1 += a + 18;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_3_4(int a) {
  g1 += a + 25;
  if (a > 3)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_4_4(int a) {
  g1 += a + 32;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_5_4(int a) {
  g1 += a + 39;
  g1 ^= a << 1;
  return g1;
}
}
extern "C" int m4_c1(int a) { return m4::f1_0_4(a) + 1; }
