#include "../inc/deep.h"
namespace hb {
extern volatile int g2;
volatile int g2;
__attribute__((noinline)) int f2_0_2(int a) {
  g2 += a + 2;
  if (a > 0)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_1_2(int a) {
  g2 += a + 9;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_2_2(int a) {
  g2 += a + 16;
  return g2;
}
}
extern "C" int hb_c2(int a) { return hb::f2_0_2(a) + 1; }
