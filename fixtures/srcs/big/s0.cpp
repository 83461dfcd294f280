#include "../inc/deep.h"
namespace big {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_1_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 8;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_2_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 15;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_3_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 22;
  if (a > 3)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_4_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 29;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_5_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 36;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_6_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 43;
  if (a > 6)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_7_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 50;
  return g0;
}
__attribute__((noinline)) int f0_8_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 57;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_9_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 64;
  if (a > 9)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_10_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 71;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_11_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 78;
  return g0;
}
__attribute__((noinline)) int f0_12_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 85;
  if (a > 12)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_13_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 92;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_14_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 99;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_15_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 106;
  if (a > 15)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_16_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 113;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_17_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 120;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_18_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 127;
  if (a > 18)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_19_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 134;
  return g0;
}
__attribute__((noinline)) int f0_20_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 141;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_21_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 148;
  if (a > 21)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_22_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 155;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_23_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 162;
  return g0;
}
__attribute__((noinline)) int f0_24_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 169;
  if (a > 24)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_25_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 176;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_26_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 183;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_27_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 190;
  if (a > 27)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_28_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 197;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_29_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 204;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_30_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 211;
  if (a > 30)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_31_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 218;
  return g0;
}
__attribute__((noinline)) int f0_32_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 225;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_33_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 232;
  if (a > 33)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_34_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 239;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_35_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 246;
  return g0;
}
__attribute__((noinline)) int f0_36_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 253;
  if (a > 36)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_37_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 260;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_38_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 267;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_39_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 274;
  if (a > 39)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_40_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 281;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_41_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 288;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_42_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 295;
  if (a > 42)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_43_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 302;
  return g0;
}
__attribute__((noinline)) int f0_44_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 309;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_45_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 316;
  if (a > 45)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_46_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 323;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_47_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 330;
  return g0;
}
__attribute__((noinline)) int f0_48_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 337;
  if (a > 48)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_49_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 344;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_50_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 351;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_51_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 358;
  if (a > 51)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_52_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 365;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_53_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 372;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_54_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 379;
  if (a > 54)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_55_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 386;
  return g0;
}
__attribute__((noinline)) int f0_56_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 393;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_57_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 400;
  if (a > 57)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_58_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 407;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_59_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 414;
  return g0;
}
__attribute__((noinline)) int f0_60_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 421;
  if (a > 60)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_61_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 428;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_62_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 435;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_63_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 442;
  if (a > 63)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_64_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 449;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_65_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 456;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_66_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 463;
  if (a > 66)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_67_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 470;
  return g0;
}
__attribute__((noinline)) int f0_68_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 477;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_69_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 484;
  if (a > 69)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_70_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 491;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_71_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 498;
  return g0;
}
__attribute__((noinline)) int f0_72_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 505;
  if (a > 72)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_73_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 512;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_74_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 519;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_75_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 526;
  if (a > 75)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_76_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 533;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_77_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 540;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_78_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 547;
  if (a > 78)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_79_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 554;
  return g0;
}
__attribute__((noinline)) int f0_80_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 561;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_81_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 568;
  if (a > 81)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_82_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 575;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_83_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 582;
  return g0;
}
__attribute__((noinline)) int f0_84_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 589;
  if (a > 84)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_85_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 596;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_86_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 603;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_87_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 610;
  if (a > 87)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_88_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 617;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_89_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 624;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_90_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 631;
  if (a > 90)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_91_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 638;
  return g0;
}
__attribute__((noinline)) int f0_92_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 645;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_93_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 652;
  if (a > 93)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_94_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 659;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_95_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 666;
  return g0;
}
__attribute__((noinline)) int f0_96_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 673;
  if (a > 96)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_97_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 680;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_98_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 687;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_99_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 694;
  if (a > 99)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_100_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 701;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_101_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 708;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_102_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 715;
  if (a > 102)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_103_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 722;
  return g0;
}
__attribute__((noinline)) int f0_104_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 729;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_105_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 736;
  if (a > 105)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_106_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 743;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_107_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 750;
  return g0;
}
__attribute__((noinline)) int f0_108_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 757;
  if (a > 108)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_109_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 764;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_110_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 771;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_111_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 778;
  if (a > 111)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_112_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 785;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_113_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 792;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_114_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 799;
  if (a > 114)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_115_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 806;
  return g0;
}
__attribute__((noinline)) int f0_116_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 813;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_117_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 820;
  if (a > 117)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_118_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 827;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_119_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 834;
  return g0;
}
__attribute__((noinline)) int f0_120_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 841;
  if (a > 120)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_121_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 848;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_122_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 855;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_123_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 862;
  if (a > 123)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_124_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 869;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_125_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 876;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_126_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 883;
  if (a > 126)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_127_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 890;
  return g0;
}
__attribute__((noinline)) int f0_128_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 897;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_129_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 904;
  if (a > 129)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_130_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 911;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_131_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 918;
  return g0;
}
__attribute__((noinline)) int f0_132_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 925;
  if (a > 132)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_133_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 932;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_134_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 939;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_135_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 946;
  if (a > 135)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_136_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 953;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_137_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 960;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_138_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 967;
  if (a > 138)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_139_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 974;
  return g0;
}
__attribute__((noinline)) int f0_140_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 981;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_141_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 988;
  if (a > 141)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_142_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 995;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_143_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1002;
  return g0;
}
__attribute__((noinline)) int f0_144_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1009;
  if (a > 144)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_145_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1016;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_146_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1023;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_147_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1030;
  if (a > 147)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_148_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1037;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_149_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1044;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_150_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1051;
  if (a > 150)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_151_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1058;
  return g0;
}
__attribute__((noinline)) int f0_152_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1065;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_153_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1072;
  if (a > 153)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_154_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1079;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_155_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1086;
  return g0;
}
__attribute__((noinline)) int f0_156_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1093;
  if (a > 156)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_157_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1100;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_158_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1107;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_159_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1114;
  if (a > 159)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_160_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1121;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_161_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1128;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_162_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1135;
  if (a > 162)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_163_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1142;
  return g0;
}
__attribute__((noinline)) int f0_164_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1149;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_165_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1156;
  if (a > 165)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_166_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1163;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_167_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1170;
  return g0;
}
__attribute__((noinline)) int f0_168_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1177;
  if (a > 168)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_169_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1184;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_170_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1191;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_171_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1198;
  if (a > 171)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_172_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1205;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_173_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1212;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_174_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1219;
  if (a > 174)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_175_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1226;
  return g0;
}
__attribute__((noinline)) int f0_176_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1233;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_177_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1240;
  if (a > 177)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_178_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1247;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_179_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1254;
  return g0;
}
__attribute__((noinline)) int f0_180_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1261;
  if (a > 180)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_181_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1268;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_182_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1275;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_183_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1282;
  if (a > 183)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_184_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1289;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_185_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1296;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_186_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1303;
  if (a > 186)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_187_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1310;
  return g0;
}
__attribute__((noinline)) int f0_188_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1317;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_189_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1324;
  if (a > 189)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_190_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1331;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_191_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1338;
  return g0;
}
__attribute__((noinline)) int f0_192_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1345;
  if (a > 192)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_193_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1352;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_194_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1359;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_195_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1366;
  if (a > 195)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_196_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1373;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_197_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1380;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_198_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1387;
  if (a > 198)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_199_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1394;
  return g0;
}
__attribute__((noinline)) int f0_200_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1401;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_201_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1408;
  if (a > 201)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_202_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1415;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_203_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1422;
  return g0;
}
__attribute__((noinline)) int f0_204_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1429;
  if (a > 204)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_205_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1436;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_206_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1443;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_207_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1450;
  if (a > 207)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_208_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1457;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_209_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1464;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_210_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1471;
  if (a > 210)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_211_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1478;
  return g0;
}
__attribute__((noinline)) int f0_212_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1485;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_213_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1492;
  if (a > 213)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_214_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1499;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_215_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1506;
  return g0;
}
__attribute__((noinline)) int f0_216_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1513;
  if (a > 216)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_217_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1520;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_218_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1527;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_219_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1534;
  if (a > 219)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_220_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1541;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_221_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1548;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_222_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1555;
  if (a > 222)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_223_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1562;
  return g0;
}
__attribute__((noinline)) int f0_224_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1569;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_225_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1576;
  if (a > 225)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_226_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1583;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_227_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1590;
  return g0;
}
__attribute__((noinline)) int f0_228_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1597;
  if (a > 228)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_229_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1604;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_230_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1611;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_231_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1618;
  if (a > 231)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_232_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1625;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_233_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1632;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_234_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1639;
  if (a > 234)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_235_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1646;
  return g0;
}
__attribute__((noinline)) int f0_236_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1653;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_237_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1660;
  if (a > 237)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_238_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1667;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_239_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1674;
  return g0;
}
__attribute__((noinline)) int f0_240_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1681;
  if (a > 240)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_241_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1688;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_242_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1695;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_243_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1702;
  if (a > 243)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_244_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1709;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_245_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1716;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_246_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1723;
  if (a > 246)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_247_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1730;
  return g0;
}
__attribute__((noinline)) int f0_248_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1737;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_249_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1744;
  if (a > 249)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_250_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1751;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_251_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1758;
  return g0;
}
__attribute__((noinline)) int f0_252_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1765;
  if (a > 252)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_253_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1772;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_254_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1779;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_255_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1786;
  if (a > 255)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_256_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1793;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_257_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1800;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_258_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1807;
  if (a > 258)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_259_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g0 += a + 1814;
  return g0;
}
}
extern "C" int big_c0(int a) { return big::f0_0_1_with_a_rather_long_name_to_fill_the_output(a) + 1; }
