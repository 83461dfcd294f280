#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace mid {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 3;
  if (a > 0)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_1_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 10;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_2_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 17;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_3_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 24;
  if (a > 3)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_4_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 31;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_5_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 38;
  return g1;
}
__attribute__((noinline)) int f1_6_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 45;
  if (a > 6)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_7_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 52;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_8_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 59;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_9_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 66;
  if (a > 9)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_10_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 73;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_11_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 80;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_12_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 87;
  if (a > 12)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_13_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 94;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_14_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 101;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_15_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 108;
  if (a > 15)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_16_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 115;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_17_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 122;
  return g1;
}
__attribute__((noinline)) int f1_18_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 129;
  if (a > 18)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_19_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 136;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_20_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 143;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_21_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 150;
  if (a > 21)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_22_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 157;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_23_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 164;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_24_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 171;
  if (a > 24)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_25_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 178;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_26_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 185;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_27_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 192;
  if (a > 27)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_28_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 199;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_29_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 206;
  return g1;
}
__attribute__((noinline)) int f1_30_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 213;
  if (a > 30)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_31_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 220;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_32_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 227;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_33_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 234;
  if (a > 33)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_34_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 241;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_35_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 248;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_36_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 255;
  if (a > 36)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_37_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 262;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_38_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 269;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_39_3_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 276;
  if (a > 39)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
}
extern "C" int mid_c1(int a) { return mid::f1_0_3_with_a_rather_long_name_to_fill_the_output(a) + 1; }
