#include "../inc/deep.h"
namespace mid {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 3;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_1_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 10;
  return g0;
}
__attribute__((noinline)) int f0_2_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 17;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_3_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 24;
  if (a > 3)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_4_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 31;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_5_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 38;
  return g0;
}
__attribute__((noinline)) int f0_6_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 45;
  if (a > 6)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_7_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 52;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_8_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 59;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_9_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 66;
  if (a > 9)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_10_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 73;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_11_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 80;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_12_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 87;
  if (a > 12)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_13_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 94;
  return g0;
}
__attribute__((noinline)) int f0_14_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 101;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_15_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 108;
  if (a > 15)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_16_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 115;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_17_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 122;
  return g0;
}
__attribute__((noinline)) int f0_18_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 129;
  if (a > 18)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_19_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 136;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_20_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 143;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_21_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 150;
  if (a > 21)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_22_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 157;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_23_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 164;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_24_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 171;
  if (a > 24)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_25_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 178;
  return g0;
}
__attribute__((noinline)) int f0_26_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 185;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_27_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 192;
  if (a > 27)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_28_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 199;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_29_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 206;
  return g0;
}
__attribute__((noinline)) int f0_30_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 213;
  if (a > 30)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_31_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 220;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_32_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 227;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_33_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 234;
  if (a > 33)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_34_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 241;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_35_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 248;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_36_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 255;
  if (a > 36)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_37_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 262;
  return g0;
}
__attribute__((noinline)) int f0_38_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 269;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_39_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 276;
  if (a > 39)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
}
extern "C" int mid_c0(int a) { return mid::f0_0_3_with_a_rather_long_name_to_fill_the_output(a) + 1; }
