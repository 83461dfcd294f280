#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace big {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1;
  if (a > 0)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_1_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 8;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_2_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 15;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_3_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 22;
  if (a > 3)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_4_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 29;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_5_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 36;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_6_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 43;
  if (a > 6)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_7_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 50;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_8_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 57;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_9_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 64;
  if (a > 9)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_10_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 71;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_11_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 78;
  return g1;
}
__attribute__((noinline)) int f1_12_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 85;
  if (a > 12)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_13_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 92;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_14_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 99;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_15_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 106;
  if (a > 15)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_16_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 113;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_17_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 120;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_18_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 127;
  if (a > 18)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_19_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 134;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_20_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 141;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_21_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 148;
  if (a > 21)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_22_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 155;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_23_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 162;
  return g1;
}
__attribute__((noinline)) int f1_24_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 169;
  if (a > 24)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_25_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 176;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_26_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 183;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_27_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 190;
  if (a > 27)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_28_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 197;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_29_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 204;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_30_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 211;
  if (a > 30)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_31_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 218;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_32_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 225;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_33_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 232;
  if (a > 33)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_34_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 239;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_35_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 246;
  return g1;
}
__attribute__((noinline)) int f1_36_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 253;
  if (a > 36)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_37_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 260;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_38_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 267;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_39_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 274;
  if (a > 39)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_40_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 281;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_41_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 288;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_42_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 295;
  if (a > 42)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_43_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 302;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_44_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 309;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_45_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 316;
  if (a > 45)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_46_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 323;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_47_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 330;
  return g1;
}
__attribute__((noinline)) int f1_48_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 337;
  if (a > 48)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_49_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 344;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_50_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 351;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_51_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 358;
  if (a > 51)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_52_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 365;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_53_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 372;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_54_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 379;
  if (a > 54)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_55_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 386;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_56_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 393;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_57_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 400;
  if (a > 57)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_58_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 407;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_59_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 414;
  return g1;
}
__attribute__((noinline)) int f1_60_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 421;
  if (a > 60)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_61_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 428;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_62_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 435;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_63_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 442;
  if (a > 63)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_64_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 449;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_65_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 456;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_66_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 463;
  if (a > 66)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_67_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 470;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_68_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 477;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_69_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 484;
  if (a > 69)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_70_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 491;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_71_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 498;
  return g1;
}
__attribute__((noinline)) int f1_72_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 505;
  if (a > 72)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_73_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 512;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_74_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 519;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_75_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 526;
  if (a > 75)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_76_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 533;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_77_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 540;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_78_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 547;
  if (a > 78)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_79_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 554;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_80_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 561;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_81_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 568;
  if (a > 81)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_82_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 575;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_83_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 582;
  return g1;
}
__attribute__((noinline)) int f1_84_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 589;
  if (a > 84)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_85_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 596;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_86_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 603;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_87_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 610;
  if (a > 87)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_88_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 617;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_89_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 624;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_90_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 631;
  if (a > 90)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_91_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 638;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_92_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 645;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_93_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 652;
  if (a > 93)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_94_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 659;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_95_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 666;
  return g1;
}
__attribute__((noinline)) int f1_96_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 673;
  if (a > 96)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_97_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 680;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_98_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 687;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_99_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 694;
  if (a > 99)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_100_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 701;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_101_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 708;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_102_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 715;
  if (a > 102)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_103_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 722;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_104_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 729;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_105_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 736;
  if (a > 105)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_106_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 743;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_107_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 750;
  return g1;
}
__attribute__((noinline)) int f1_108_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 757;
  if (a > 108)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_109_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 764;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_110_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 771;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_111_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 778;
  if (a > 111)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_112_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 785;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_113_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 792;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_114_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 799;
  if (a > 114)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_115_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 806;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_116_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 813;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_117_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 820;
  if (a > 117)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_118_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 827;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_119_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 834;
  return g1;
}
__attribute__((noinline)) int f1_120_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 841;
  if (a > 120)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_121_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 848;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_122_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 855;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_123_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 862;
  if (a > 123)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_124_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 869;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_125_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 876;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_126_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 883;
  if (a > 126)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_127_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 890;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_128_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 897;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_129_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 904;
  if (a > 129)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_130_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 911;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_131_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 918;
  return g1;
}
__attribute__((noinline)) int f1_132_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 925;
  if (a > 132)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_133_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 932;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_134_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 939;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_135_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 946;
  if (a > 135)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_136_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 953;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_137_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 960;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_138_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 967;
  if (a > 138)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_139_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 974;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_140_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 981;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_141_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 988;
  if (a > 141)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_142_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 995;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_143_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1002;
  return g1;
}
__attribute__((noinline)) int f1_144_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1009;
  if (a > 144)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_145_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1016;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_146_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1023;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_147_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1030;
  if (a > 147)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_148_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1037;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_149_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1044;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_150_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1051;
  if (a > 150)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_151_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1058;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_152_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1065;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_153_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1072;
  if (a > 153)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_154_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1079;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_155_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1086;
  return g1;
}
__attribute__((noinline)) int f1_156_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1093;
  if (a > 156)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_157_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1100;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_158_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1107;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_159_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1114;
  if (a > 159)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_160_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1121;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_161_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1128;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_162_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1135;
  if (a > 162)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_163_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1142;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_164_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1149;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_165_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1156;
  if (a > 165)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_166_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1163;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_167_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1170;
  return g1;
}
__attribute__((noinline)) int f1_168_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1177;
  if (a > 168)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_169_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1184;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_170_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1191;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_171_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1198;
  if (a > 171)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_172_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1205;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_173_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1212;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_174_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1219;
  if (a > 174)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_175_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1226;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_176_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1233;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_177_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1240;
  if (a > 177)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_178_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1247;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_179_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1254;
  return g1;
}
__attribute__((noinline)) int f1_180_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1261;
  if (a > 180)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_181_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1268;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_182_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1275;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_183_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1282;
  if (a > 183)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_184_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1289;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_185_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1296;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_186_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1303;
  if (a > 186)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_187_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1310;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_188_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1317;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_189_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1324;
  if (a > 189)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_190_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1331;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_191_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1338;
  return g1;
}
__attribute__((noinline)) int f1_192_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1345;
  if (a > 192)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_193_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1352;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_194_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1359;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_195_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1366;
  if (a > 195)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_196_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1373;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_197_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1380;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_198_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1387;
  if (a > 198)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_199_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1394;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_200_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1401;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_201_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1408;
  if (a > 201)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_202_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1415;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_203_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1422;
  return g1;
}
__attribute__((noinline)) int f1_204_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1429;
  if (a > 204)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_205_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1436;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_206_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1443;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_207_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1450;
  if (a > 207)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_208_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1457;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_209_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1464;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_210_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1471;
  if (a > 210)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_211_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1478;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_212_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1485;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_213_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1492;
  if (a > 213)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_214_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1499;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_215_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1506;
  return g1;
}
__attribute__((noinline)) int f1_216_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1513;
  if (a > 216)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_217_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1520;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_218_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1527;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_219_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1534;
  if (a > 219)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_220_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1541;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_221_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1548;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_222_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1555;
  if (a > 222)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_223_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1562;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_224_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1569;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_225_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1576;
  if (a > 225)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_226_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1583;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_227_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1590;
  return g1;
}
__attribute__((noinline)) int f1_228_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1597;
  if (a > 228)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_229_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1604;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_230_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1611;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_231_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1618;
  if (a > 231)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_232_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1625;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_233_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1632;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_234_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1639;
  if (a > 234)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_235_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1646;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_236_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1653;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_237_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1660;
  if (a > 237)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_238_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1667;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_239_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1674;
  return g1;
}
__attribute__((noinline)) int f1_240_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1681;
  if (a > 240)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_241_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1688;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_242_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1695;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_243_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1702;
  if (a > 243)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_244_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1709;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_245_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1716;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_246_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1723;
  if (a > 246)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_247_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1730;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_248_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1737;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_249_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1744;
  if (a > 249)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_250_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1751;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_251_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1758;
  return g1;
}
__attribute__((noinline)) int f1_252_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1765;
  if (a > 252)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_253_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1772;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_254_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1779;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_255_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1786;
  if (a > 255)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_256_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1793;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_257_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1800;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_258_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1807;
  if (a > 258)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_259_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g1 += a + 1814;
  g1 = only_inl(&g1);
  return g1;
}
}
extern "C" int big_c1(int a) { return big::f1_0_1_with_a_rather_long_name_to_fill_the_output(a) + 1; }
