#include "../inc/deep.h"
namespace big {
extern volatile int g2;
volatile int g2;
__attribute__((noinline)) int f2_0_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1;
  if (a > 0)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_1_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 8;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_2_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 15;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_3_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 22;
  if (a > 3)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_4_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 29;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_5_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 36;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_6_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 43;
  if (a > 6)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_7_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 50;
  return g2;
}
__attribute__((noinline)) int f2_8_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 57;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_9_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 64;
  if (a > 9)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_10_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 71;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_11_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 78;
  return g2;
}
__attribute__((noinline)) int f2_12_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 85;
  if (a > 12)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_13_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 92;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_14_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 99;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_15_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 106;
  if (a > 15)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_16_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 113;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_17_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 120;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_18_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 127;
  if (a > 18)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_19_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 134;
  return g2;
}
__attribute__((noinline)) int f2_20_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 141;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_21_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 148;
  if (a > 21)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_22_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 155;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_23_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 162;
  return g2;
}
__attribute__((noinline)) int f2_24_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 169;
  if (a > 24)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_25_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 176;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_26_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 183;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_27_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 190;
  if (a > 27)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_28_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 197;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_29_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 204;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_30_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 211;
  if (a > 30)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_31_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 218;
  return g2;
}
__attribute__((noinline)) int f2_32_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 225;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_33_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 232;
  if (a > 33)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_34_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 239;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_35_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 246;
  return g2;
}
__attribute__((noinline)) int f2_36_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 253;
  if (a > 36)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_37_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 260;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_38_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 267;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_39_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 274;
  if (a > 39)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_40_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 281;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_41_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 288;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_42_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 295;
  if (a > 42)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_43_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 302;
  return g2;
}
__attribute__((noinline)) int f2_44_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 309;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_45_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 316;
  if (a > 45)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_46_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 323;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_47_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 330;
  return g2;
}
__attribute__((noinline)) int f2_48_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 337;
  if (a > 48)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_49_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 344;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_50_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 351;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_51_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 358;
  if (a > 51)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_52_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 365;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_53_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 372;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_54_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 379;
  if (a > 54)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_55_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 386;
  return g2;
}
__attribute__((noinline)) int f2_56_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 393;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_57_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 400;
  if (a > 57)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_58_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 407;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_59_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 414;
  return g2;
}
__attribute__((noinline)) int f2_60_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 421;
  if (a > 60)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_61_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 428;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_62_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 435;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_63_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 442;
  if (a > 63)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_64_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 449;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_65_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 456;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_66_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 463;
  if (a > 66)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_67_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 470;
  return g2;
}
__attribute__((noinline)) int f2_68_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 477;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_69_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 484;
  if (a > 69)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_70_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 491;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_71_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 498;
  return g2;
}
__attribute__((noinline)) int f2_72_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 505;
  if (a > 72)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_73_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 512;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_74_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 519;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_75_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 526;
  if (a > 75)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_76_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 533;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_77_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 540;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_78_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 547;
  if (a > 78)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_79_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 554;
  return g2;
}
__attribute__((noinline)) int f2_80_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 561;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_81_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 568;
  if (a > 81)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_82_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 575;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_83_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 582;
  return g2;
}
__attribute__((noinline)) int f2_84_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 589;
  if (a > 84)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_85_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 596;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_86_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 603;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_87_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 610;
  if (a > 87)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_88_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 617;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_89_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 624;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_90_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 631;
  if (a > 90)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_91_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 638;
  return g2;
}
__attribute__((noinline)) int f2_92_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 645;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_93_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 652;
  if (a > 93)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_94_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 659;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_95_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 666;
  return g2;
}
__attribute__((noinline)) int f2_96_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 673;
  if (a > 96)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_97_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 680;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_98_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 687;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_99_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 694;
  if (a > 99)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_100_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 701;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_101_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 708;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_102_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 715;
  if (a > 102)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_103_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 722;
  return g2;
}
__attribute__((noinline)) int f2_104_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 729;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_105_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 736;
  if (a > 105)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_106_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 743;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_107_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 750;
  return g2;
}
__attribute__((noinline)) int f2_108_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 757;
  if (a > 108)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_109_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 764;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_110_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 771;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_111_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 778;
  if (a > 111)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_112_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 785;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_113_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 792;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_114_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 799;
  if (a > 114)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_115_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 806;
  return g2;
}
__attribute__((noinline)) int f2_116_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 813;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_117_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 820;
  if (a > 117)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_118_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 827;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_119_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 834;
  return g2;
}
__attribute__((noinline)) int f2_120_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 841;
  if (a > 120)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_121_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 848;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_122_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 855;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_123_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 862;
  if (a > 123)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_124_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 869;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_125_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 876;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_126_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 883;
  if (a > 126)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_127_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 890;
  return g2;
}
__attribute__((noinline)) int f2_128_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 897;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_129_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 904;
  if (a > 129)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_130_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 911;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_131_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 918;
  return g2;
}
__attribute__((noinline)) int f2_132_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 925;
  if (a > 132)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_133_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 932;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_134_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 939;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_135_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 946;
  if (a > 135)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_136_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 953;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_137_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 960;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_138_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 967;
  if (a > 138)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_139_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 974;
  return g2;
}
__attribute__((noinline)) int f2_140_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 981;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_141_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 988;
  if (a > 141)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_142_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 995;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_143_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1002;
  return g2;
}
__attribute__((noinline)) int f2_144_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1009;
  if (a > 144)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_145_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1016;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_146_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1023;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_147_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1030;
  if (a > 147)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_148_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1037;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_149_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1044;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_150_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1051;
  if (a > 150)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_151_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1058;
  return g2;
}
__attribute__((noinline)) int f2_152_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1065;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_153_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1072;
  if (a > 153)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_154_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1079;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_155_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1086;
  return g2;
}
__attribute__((noinline)) int f2_156_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1093;
  if (a > 156)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_157_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1100;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_158_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1107;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_159_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1114;
  if (a > 159)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_160_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1121;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_161_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1128;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_162_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1135;
  if (a > 162)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_163_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1142;
  return g2;
}
__attribute__((noinline)) int f2_164_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1149;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_165_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1156;
  if (a > 165)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_166_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1163;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_167_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1170;
  return g2;
}
__attribute__((noinline)) int f2_168_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1177;
  if (a > 168)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_169_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1184;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_170_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1191;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_171_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1198;
  if (a > 171)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_172_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1205;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_173_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1212;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_174_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1219;
  if (a > 174)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_175_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1226;
  return g2;
}
__attribute__((noinline)) int f2_176_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1233;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_177_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1240;
  if (a > 177)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_178_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1247;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_179_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1254;
  return g2;
}
__attribute__((noinline)) int f2_180_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1261;
  if (a > 180)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_181_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1268;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_182_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1275;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_183_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1282;
  if (a > 183)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_184_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1289;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_185_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1296;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_186_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1303;
  if (a > 186)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_187_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1310;
  return g2;
}
__attribute__((noinline)) int f2_188_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1317;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_189_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1324;
  if (a > 189)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_190_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1331;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_191_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1338;
  return g2;
}
__attribute__((noinline)) int f2_192_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1345;
  if (a > 192)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_193_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1352;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_194_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1359;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_195_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1366;
  if (a > 195)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_196_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1373;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_197_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1380;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_198_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1387;
  if (a > 198)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_199_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1394;
  return g2;
}
__attribute__((noinline)) int f2_200_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1401;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_201_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1408;
  if (a > 201)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_202_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1415;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_203_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1422;
  return g2;
}
__attribute__((noinline)) int f2_204_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1429;
  if (a > 204)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_205_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1436;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_206_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1443;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_207_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1450;
  if (a > 207)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_208_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1457;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_209_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1464;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_210_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1471;
  if (a > 210)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_211_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1478;
  return g2;
}
__attribute__((noinline)) int f2_212_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1485;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_213_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1492;
  if (a > 213)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_214_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1499;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_215_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1506;
  return g2;
}
__attribute__((noinline)) int f2_216_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1513;
  if (a > 216)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_217_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1520;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_218_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1527;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_219_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1534;
  if (a > 219)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_220_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1541;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_221_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1548;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_222_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1555;
  if (a > 222)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_223_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1562;
  return g2;
}
__attribute__((noinline)) int f2_224_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1569;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_225_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1576;
  if (a > 225)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_226_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1583;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_227_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1590;
  return g2;
}
__attribute__((noinline)) int f2_228_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1597;
  if (a > 228)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_229_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1604;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_230_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1611;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_231_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1618;
  if (a > 231)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_232_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1625;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_233_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1632;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_234_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1639;
  if (a > 234)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_235_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1646;
  return g2;
}
__attribute__((noinline)) int f2_236_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1653;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_237_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1660;
  if (a > 237)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_238_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1667;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_239_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1674;
  return g2;
}
__attribute__((noinline)) int f2_240_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1681;
  if (a > 240)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_241_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1688;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_242_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1695;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_243_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1702;
  if (a > 243)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_244_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1709;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_245_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1716;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_246_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1723;
  if (a > 246)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_247_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1730;
  return g2;
}
__attribute__((noinline)) int f2_248_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1737;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_249_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1744;
  if (a > 249)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_250_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1751;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_251_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1758;
  return g2;
}
__attribute__((noinline)) int f2_252_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1765;
  if (a > 252)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_253_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1772;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_254_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1779;
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_255_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1786;
  if (a > 255)
    return deep_one(&g2, a);
  return g2;
}
__attribute__((noinline)) int f2_256_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1793;
  g2 ^= a << 1;
  return g2;
}
__attribute__((noinline)) int f2_257_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1800;
  g2 ^= a << 1;
  g2 ^= a << 2;
  return g2;
}
__attribute__((noinline)) int f2_258_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1807;
  if (a > 258)
    return deep_one(&g2, a);
  g2 ^= a << 1;
  g2 ^= a << 2;
  g2 ^= a << 3;
  return g2;
}
__attribute__((noinline)) int f2_259_1_with_a_rather_long_name_to_fill_the_output(int a) {
  g2 += a + 1814;
  return g2;
}
}
extern "C" int big_c2(int a) { return big::f2_0_1_with_a_rather_long_name_to_fill_the_output(a) + 1; }
