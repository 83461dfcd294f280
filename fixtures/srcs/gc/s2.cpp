#include "../inc/deep.h"
namespace gc {
extern volatile int g2;
volatile int g2;
__attribute__((noinline)) int f2_0_2(int a) {
  g2 += a + 2;
  if (a > 0)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_1_2(int a) {
  g2 += a + 9;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_2_2(int a) {
  g2 += a + 16;
  return g2;
}
__attribute__((noinline)) int f2_3_2(int a) {
  g2 += a + 23;
  if (a > 3)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_4_2(int a) {
  g2 += a + 30;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_5_2(int a) {
  g2 += a + 37;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
}
extern "C" int gc_c2(int a) { return gc::f2_0_2(a) + 1; }
