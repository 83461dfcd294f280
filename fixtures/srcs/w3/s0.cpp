#include "../inc/deep.h"
namespace w3 {
extern volatile int g0;
volatile int g0;
__attribute__((noinline)) int f0_0_2(int a) {
  g0 += a + 2;
  if (a > 0)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_1_2(int a) {
  g0 += a + 9;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_2_2(int a) {
  g0 += a + 16;
  return g0;
}
__attribute__((noinline)) int f0_3_2(int a) {
  g0 += a + 23;
  if (a > 3)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_4_2(int a) {
  g0 += a + 30;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_5_2(int a) {
  g0 += a + 37;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_6_2(int a) {
  g0 += a + 44;
  if (a > 6)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_7_2(int a) {
  g0 += a + 51;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_8_2(int a) {
  g0 += a + 58;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_9_2(int a) {
  g0 += a + 65;
  if (a > 9)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_10_2(int a) {
  g0 += a + 72;
  return g0;
}
__attribute__((noinline)) int f0_11_2(int a) {
  g0 += a + 79;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_12_2(int a) {
  g0 += a + 86;
  if (a > 12)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_13_2(int a) {
  g0 += a + 93;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_14_2(int a) {
  g0 += a + 100;
  return g0;
}
__attribute__((noinline)) int f0_15_2(int a) {
  g0 += a + 107;
  if (a > 15)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_16_2(int a) {
  g0 += a + 114;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_17_2(int a) {
  g0 += a + 121;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_18_2(int a) {
  g0 += a + 128;
  if (a > 18)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_19_2(int a) {
  g0 += a + 135;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_20_2(int a) {
  g0 += a + 142;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_21_2(int a) {
  g0 += a + 149;
  if (a > 21)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_22_2(int a) {
  g0 += a + 156;
  return g0;
}
__attribute__((noinline)) int f0_23_2(int a) {
  g0 += a + 163;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_24_2(int a) {
  g0 += a + 170;
  if (a > 24)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_25_2(int a) {
  g0 += a + 177;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_26_2(int a) {
  g0 += a + 184;
  return g0;
}
__attribute__((noinline)) int f0_27_2(int a) {
  g0 += a + 191;
  if (a > 27)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_28_2(int a) {
  g0 += a + 198;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_29_2(int a) {
  g0 += a + 205;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_30_2(int a) {
  g0 += a + 212;
  if (a > 30)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_31_2(int a) {
  g0 += a + 219;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_32_2(int a) {
  g0 += a + 226;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_33_2(int a) {
  g0 += a + 233;
  if (a > 33)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_34_2(int a) {
  g0 += a + 240;
  return g0;
}
__attribute__((noinline)) int f0_35_2(int a) {
  g0 += a + 247;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_36_2(int a) {
  g0 += a + 254;
  if (a > 36)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_37_2(int a) {
  g0 += a + 261;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_38_2(int a) {
  g0 += a + 268;
  return g0;
}
__attribute__((noinline)) int f0_39_2(int a) {
  g0 += a + 275;
  if (a > 39)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_40_2(int a) {
  g0 += a + 282;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_41_2(int a) {
  g0 += a + 289;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_42_2(int a) {
  g0 += a + 296;
  if (a > 42)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_43_2(int a) {
  g0 += a + 303;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_44_2(int a) {
  g0 += a + 310;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_45_2(int a) {
  g0 += a + 317;
  if (a > 45)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_46_2(int a) {
  g0 += a + 324;
  return g0;
}
__attribute__((noinline)) int f0_47_2(int a) {
  g0 += a + 331;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_48_2(int a) {
  g0 += a + 338;
  if (a > 48)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_49_2(int a) {
  g0 += a + 345;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_50_2(int a) {
  g0 += a + 352;
  return g0;
}
__attribute__((noinline)) int f0_51_2(int a) {
  g0 += a + 359;
  if (a > 51)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_52_2(int a) {
  g0 += a + 366;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_53_2(int a) {
  g0 += a + 373;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_54_2(int a) {
  g0 += a + 380;
  if (a > 54)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_55_2(int a) {
  g0 += a + 387;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_56_2(int a) {
  g0 += a + 394;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_57_2(int a) {
  g0 += a + 401;
  if (a > 57)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_58_2(int a) {
  g0 += a + 408;
  return g0;
}
__attribute__((noinline)) int f0_59_2(int a) {
  g0 += a + 415;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_60_2(int a) {
  g0 += a + 422;
  if (a > 60)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_61_2(int a) {
  g0 += a + 429;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_62_2(int a) {
  g0 += a + 436;
  return g0;
}
__attribute__((noinline)) int f0_63_2(int a) {
  g0 += a + 443;
  if (a > 63)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_64_2(int a) {
  g0 += a + 450;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_65_2(int a) {
  g0 += a + 457;
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
__attribute__((noinline)) int f0_66_2(int a) {
  g0 += a + 464;
  if (a > 66)
    return deep_one(&g0, a);
  return g0;
}
__attribute__((noinline)) int f0_67_2(int a) {
  g0 += a + 471;
  g0 ^= a << 1;
  return g0;
}
__attribute__((noinline)) int f0_68_2(int a) {
  g0 += a + 478;
  g0 ^= a << 1;
  g0 ^= a << 2;
  return g0;
}
__attribute__((noinline)) int f0_69_2(int a) {
  g0 += a + 485;
  if (a > 69)
    return deep_one(&g0, a);
  g0 ^= a << 1;
  g0 ^= a << 2;
  g0 ^= a << 3;
  return g0;
}
}
extern "C" int w3_c0(int a) { return w3::f0_0_2(a) + 1; }
