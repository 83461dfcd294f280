#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace w0 {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_0(int a) {
  g1 += a + 0;
  if (a > 0)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_1_0(int a) {
  g1 += a + 7;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_2_0(int a) {
  g1 += a + 14;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_3_0(int a) {
  g1 += a + 21;
  if (a > 3)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
}
extern "C" int w0_c1(int a) { return w0::f1_0_0(a) + 1; }
