#include "../inc/deep.h"
#include "../inc/only_inl.h"
namespace w3 {
extern volatile int g1;
volatile int g1;
__attribute__((noinline)) int f1_0_2(int a) {
  g1 += a + 2;
  if (a > 0)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_1_2(int a) {
  g1 += a + 9;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_2_2(int a) {
  g1 += a + 16;
  return g1;
}
__attribute__((noinline)) int f1_3_2(int a) {
  g1 += a + 23;
  if (a > 3)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_4_2(int a) {
  g1 += a + 30;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_5_2(int a) {
  g1 += a + 37;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_6_2(int a) {
  g1 += a + 44;
  if (a > 6)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_7_2(int a) {
  g1 += a + 51;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_8_2(int a) {
  g1 += a + 58;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_9_2(int a) {
  g1 += a + 65;
  if (a > 9)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_10_2(int a) {
  g1 += a + 72;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_11_2(int a) {
  g1 += a + 79;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_12_2(int a) {
  g1 += a + 86;
  if (a > 12)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_13_2(int a) {
  g1 += a + 93;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_14_2(int a) {
  g1 += a + 100;
  return g1;
}
__attribute__((noinline)) int f1_15_2(int a) {
  g1 += a + 107;
  if (a > 15)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_16_2(int a) {
  g1 += a + 114;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_17_2(int a) {
  g1 += a + 121;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_18_2(int a) {
  g1 += a + 128;
  if (a > 18)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_19_2(int a) {
  g1 += a + 135;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_20_2(int a) {
  g1 += a + 142;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_21_2(int a) {
  g1 += a + 149;
  if (a > 21)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_22_2(int a) {
  g1 += a + 156;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_23_2(int a) {
  g1 += a + 163;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_24_2(int a) {
  g1 += a + 170;
  if (a > 24)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_25_2(int a) {
  g1 += a + 177;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_26_2(int a) {
  g1 += a + 184;
  return g1;
}
__attribute__((noinline)) int f1_27_2(int a) {
  g1 += a + 191;
  if (a > 27)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_28_2(int a) {
  g1 += a + 198;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_29_2(int a) {
  g1 += a + 205;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_30_2(int a) {
  g1 += a + 212;
  if (a > 30)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_31_2(int a) {
  g1 += a + 219;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_32_2(int a) {
  g1 += a + 226;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_33_2(int a) {
  g1 += a + 233;
  if (a > 33)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_34_2(int a) {
  g1 += a + 240;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_35_2(int a) {
  g1 += a + 247;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_36_2(int a) {
  g1 += a + 254;
  if (a > 36)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_37_2(int a) {
  g1 += a + 261;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_38_2(int a) {
  g1 += a + 268;
  return g1;
}
__attribute__((noinline)) int f1_39_2(int a) {
  g1 += a + 275;
  if (a > 39)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_40_2(int a) {
  g1 += a + 282;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_41_2(int a) {
  g1 += a + 289;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_42_2(int a) {
  g1 += a + 296;
  if (a > 42)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_43_2(int a) {
  g1 += a + 303;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_44_2(int a) {
  g1 += a + 310;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_45_2(int a) {
  g1 += a + 317;
  if (a > 45)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_46_2(int a) {
  g1 += a + 324;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_47_2(int a) {
  g1 += a + 331;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_48_2(int a) {
  g1 += a + 338;
  if (a > 48)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_49_2(int a) {
  g1 += a + 345;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_50_2(int a) {
  g1 += a + 352;
  return g1;
}
__attribute__((noinline)) int f1_51_2(int a) {
  g1 += a + 359;
  if (a > 51)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_52_2(int a) {
  g1 += a + 366;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_53_2(int a) {
  g1 += a + 373;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_54_2(int a) {
  g1 += a + 380;
  if (a > 54)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_55_2(int a) {
  g1 += a + 387;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_56_2(int a) {
  g1 += a + 394;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_57_2(int a) {
  g1 += a + 401;
  if (a > 57)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_58_2(int a) {
  g1 += a + 408;
  g1 = only_inl(&g1);
  return g1;
}
__attribute__((noinline)) int f1_59_2(int a) {
  g1 += a + 415;
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_60_2(int a) {
  g1 += a + 422;
  if (a > 60)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_61_2(int a) {
  g1 += a + 429;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_62_2(int a) {
  g1 += a + 436;
  return g1;
}
__attribute__((noinline)) int f1_63_2(int a) {
  g1 += a + 443;
  if (a > 63)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_64_2(int a) {
  g1 += a + 450;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_65_2(int a) {
  g1 += a + 457;
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
__attribute__((noinline)) int f1_66_2(int a) {
  g1 += a + 464;
  if (a > 66)
    return deep_one(&g1, a);
  return g1;
}
__attribute__((noinline)) int f1_67_2(int a) {
  g1 += a + 471;
  g1 = only_inl(&g1);
  g1 ^= a << 1;
  return g1;
}
__attribute__((noinline)) int f1_68_2(int a) {
  g1 += a + 478;
  g1 ^= a << 1;
  g1 ^= a << 2;
  return g1;
}
__attribute__((noinline)) int f1_69_2(int a) {
  g1 += a + 485;
  if (a > 69)
    return deep_one(&g1, a);
  g1 ^= a << 1;
  g1 ^= a << 2;
  g1 ^= a << 3;
  return g1;
}
}
extern "C" int w3_c1(int a) { return w3::f1_0_2(a) + 1; }
