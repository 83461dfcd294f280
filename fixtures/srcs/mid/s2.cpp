#include "../inc/deep.h"
namespace mid {
extern volatile int g2;
volatile int g2;
__attribute__((noinline)) int f2_0_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 3;
  if (a > 0)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_1_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 10;
  return g2;
}
__attribute__((noinline)) int f2_2_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 17;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_3_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 24;
  if (a > 3)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_4_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 31;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_5_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 38;
  return g2;
}
__attribute__((noinline)) int f2_6_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 45;
  if (a > 6)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_7_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 52;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_8_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 59;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_9_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 66;
  if (a > 9)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_10_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 73;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_11_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 80;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_12_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 87;
  if (a > 12)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_13_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 94;
  return g2;
}
__attribute__((noinline)) int f2_14_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 101;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_15_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 108;
  if (a > 15)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_16_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 115;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_17_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 122;
  return g2;
}
__attribute__((noinline)) int f2_18_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 129;
  if (a > 18)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_19_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 136;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_20_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 143;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_21_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 150;
  if (a > 21)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_22_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 157;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_23_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 164;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_24_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 171;
  if (a > 24)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_25_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 178;
  return g2;
}
__attribute__((noinline)) int f2_26_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 185;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_27_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 192;
  if (a > 27)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_28_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 199;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_29_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 206;
  return g2;
}
__attribute__((noinline)) int f2_30_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 213;
  if (a > 30)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_31_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 220;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_32_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 227;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_33_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 234;
  if (a > 33)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_34_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 241;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_35_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 248;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_36_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 255;
  if (a > 36)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_37_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 262;
  return g2;
}
__attribute__((noinline)) int f2_38_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 269;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_39_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 276;
  if (a > 39)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
}
extern "C" int mid_c2(int a) { return mid::f2_0_3_with_a_rather_long_name_to_fill_the_output(a) + 1; }
