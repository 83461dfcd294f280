volatile int g;
static inline __attribute__((always_inline)) int d0(int a) {
  g += a;
  return g;
}
static inline __attribute__((always_inline)) int d1(int a) {
  g += d0(a + 1);
  return g;
}
static inline __attribute__((always_inline)) int d2(int a) {
  g += d1(a + 2);
  return g;
}
static inline __attribute__((always_inline)) int d3(int a) {
  g += d2(a + 3);
  return g;
}
static inline __attribute__((always_inline)) int d4(int a) {
  g += d3(a + 4);
  return g;
}
static inline __attribute__((always_inline)) int d5(int a) {
  g += d4(a + 5);
  return g;
}
static inline __attribute__((always_inline)) int d6(int a) {
  g += d5(a + 6);
  return g;
}
static inline __attribute__((always_inline)) int d7(int a) {
  g += d6(a + 7);
  return g;
}
static inline __attribute__((always_inline)) int d8(int a) {
  g += d7(a + 8);
  return g;
}
static inline __attribute__((always_inline)) int d9(int a) {
  g += d8(a + 9);
  return g;
}
static inline __attribute__((always_inline)) int d10(int a) {
  g += d9(a + 10);
  return g;
}
static inline __attribute__((always_inline)) int d11(int a) {
  g += d10(a + 11);
  return g;
}
static inline __attribute__((always_inline)) int d12(int a) {
  g += d11(a + 12);
  return g;
}
static inline __attribute__((always_inline)) int d13(int a) {
  g += d12(a + 13);
  return g;
}
static inline __attribute__((always_inline)) int d14(int a) {
  g += d13(a + 14);
  return g;
}
static inline __attribute__((always_inline)) int d15(int a) {
  g += d14(a + 15);
  return g;
}
static inline __attribute__((always_inline)) int d16(int a) {
  g += d15(a + 16);
  return g;
}
static inline __attribute__((always_inline)) int d17(int a) {
  g += d16(a + 17);
  return g;
}
static inline __attribute__((always_inline)) int d18(int a) {
  g += d17(a + 18);
  return g;
}
static inline __attribute__((always_inline)) int d19(int a) {
  g += d18(a + 19);
  return g;
}
static inline __attribute__((always_inline)) int d20(int a) {
  g += d19(a + 20);
  return g;
}
static inline __attribute__((always_inline)) int d21(int a) {
  g += d20(a + 21);
  return g;
}
static inline __attribute__((always_inline)) int d22(int a) {
  g += d21(a + 22);
  return g;
}
static inline __attribute__((always_inline)) int d23(int a) {
  g += d22(a + 23);
  return g;
}
static inline __attribute__((always_inline)) int d24(int a) {
  g += d23(a + 24);
  return g;
}
static inline __attribute__((always_inline)) int d25(int a) {
  g += d24(a + 25);
  return g;
}
static inline __attribute__((always_inline)) int d26(int a) {
  g += d25(a + 26);
  return g;
}
static inline __attribute__((always_inline)) int d27(int a) {
  g += d26(a + 27);
  return g;
}
static inline __attribute__((always_inline)) int d28(int a) {
  g += d27(a + 28);
  return g;
}
static inline __attribute__((always_inline)) int d29(int a) {
  g += d28(a + 29);
  return g;
}
static inline __attribute__((always_inline)) int d30(int a) {
  g += d29(a + 30);
  return g;
}
static inline __attribute__((always_inline)) int d31(int a) {
  g += d30(a + 31);
  return g;
}
static inline __attribute__((always_inline)) int d32(int a) {
  g += d31(a + 32);
  return g;
}
static inline __attribute__((always_inline)) int d33(int a) {
  g += d32(a + 33);
  return g;
}
static inline __attribute__((always_inline)) int d34(int a) {
  g += d33(a + 34);
  return g;
}
static inline __attribute__((always_inline)) int d35(int a) {
  g += d34(a + 35);
  return g;
}
static inline __attribute__((always_inline)) int d36(int a) {
  g += d35(a + 36);
  return g;
}
static inline __attribute__((always_inline)) int d37(int a) {
  g += d36(a + 37);
  return g;
}
static inline __attribute__((always_inline)) int d38(int a) {
  g += d37(a + 38);
  return g;
}
static inline __attribute__((always_inline)) int d39(int a) {
  g += d38(a + 39);
  return g;
}
static inline __attribute__((always_inline)) int d40(int a) {
  g += d39(a + 40);
  return g;
}
static inline __attribute__((always_inline)) int d41(int a) {
  g += d40(a + 41);
  return g;
}
static inline __attribute__((always_inline)) int d42(int a) {
  g += d41(a + 42);
  return g;
}
static inline __attribute__((always_inline)) int d43(int a) {
  g += d42(a + 43);
  return g;
}
static inline __attribute__((always_inline)) int d44(int a) {
  g += d43(a + 44);
  return g;
}
static inline __attribute__((always_inline)) int d45(int a) {
  g += d44(a + 45);
  return g;
}
static inline __attribute__((always_inline)) int d46(int a) {
  g += d45(a + 46);
  return g;
}
static inline __attribute__((always_inline)) int d47(int a) {
  g += d46(a + 47);
  return g;
}
static inline __attribute__((always_inline)) int d48(int a) {
  g += d47(a + 48);
  return g;
}
static inline __attribute__((always_inline)) int d49(int a) {
  g += d48(a + 49);
  return g;
}
static inline __attribute__((always_inline)) int d50(int a) {
  g += d49(a + 50);
  return g;
}
static inline __attribute__((always_inline)) int d51(int a) {
  g += d50(a + 51);
  return g;
}
static inline __attribute__((always_inline)) int d52(int a) {
  g += d51(a + 52);
  return g;
}
static inline __attribute__((always_inline)) int d53(int a) {
  g += d52(a + 53);
  return g;
}
static inline __attribute__((always_inline)) int d54(int a) {
  g += d53(a + 54);
  return g;
}
static inline __attribute__((always_inline)) int d55(int a) {
  g += d54(a + 55);
  return g;
}
static inline __attribute__((always_inline)) int d56(int a) {
  g += d55(a + 56);
  return g;
}
static inline __attribute__((always_inline)) int d57(int a) {
  g += d56(a + 57);
  return g;
}
static inline __attribute__((always_inline)) int d58(int a) {
  g += d57(a + 58);
  return g;
}
static inline __attribute__((always_inline)) int d59(int a) {
  g += d58(a + 59);
  return g;
}
static inline __attribute__((always_inline)) int d60(int a) {
  g += d59(a + 60);
  return g;
}
static inline __attribute__((always_inline)) int d61(int a) {
  g += d60(a + 61);
  return g;
}
static inline __attribute__((always_inline)) int d62(int a) {
  g += d61(a + 62);
  return g;
}
static inline __attribute__((always_inline)) int d63(int a) {
  g += d62(a + 63);
  return g;
}
static inline __attribute__((always_inline)) int d64(int a) {
  g += d63(a + 64);
  return g;
}
static inline __attribute__((always_inline)) int d65(int a) {
  g += d64(a + 65);
  return g;
}
static inline __attribute__((always_inline)) int d66(int a) {
  g += d65(a + 66);
  return g;
}
static inline __attribute__((always_inline)) int d67(int a) {
  g += d66(a + 67);
  return g;
}
static inline __attribute__((always_inline)) int d68(int a) {
  g += d67(a + 68);
  return g;
}
static inline __attribute__((always_inline)) int d69(int a) {
  g += d68(a + 69);
  return g;
}
static inline __attribute__((always_inline)) int d70(int a) {
  g += d69(a + 70);
  return g;
}
static inline __attribute__((always_inline)) int d71(int a) {
  g += d70(a + 71);
  return g;
}
static inline __attribute__((always_inline)) int d72(int a) {
  g += d71(a + 72);
  return g;
}
static inline __attribute__((always_inline)) int d73(int a) {
  g += d72(a + 73);
  return g;
}
static inline __attribute__((always_inline)) int d74(int a) {
  g += d73(a + 74);
  return g;
}
static inline __attribute__((always_inline)) int d75(int a) {
  g += d74(a + 75);
  return g;
}
static inline __attribute__((always_inline)) int d76(int a) {
  g += d75(a + 76);
  return g;
}
static inline __attribute__((always_inline)) int d77(int a) {
  g += d76(a + 77);
  return g;
}
static inline __attribute__((always_inline)) int d78(int a) {
  g += d77(a + 78);
  return g;
}
static inline __attribute__((always_inline)) int d79(int a) {
  g += d78(a + 79);
  return g;
}
static inline __attribute__((always_inline)) int d80(int a) {
  g += d79(a + 80);
  return g;
}
static inline __attribute__((always_inline)) int d81(int a) {
  g += d80(a + 81);
  return g;
}
static inline __attribute__((always_inline)) int d82(int a) {
  g += d81(a + 82);
  return g;
}
static inline __attribute__((always_inline)) int d83(int a) {
  g += d82(a + 83);
  return g;
}
static inline __attribute__((always_inline)) int d84(int a) {
  g += d83(a + 84);
  return g;
}
static inline __attribute__((always_inline)) int d85(int a) {
  g += d84(a + 85);
  return g;
}
static inline __attribute__((always_inline)) int d86(int a) {
  g += d85(a + 86);
  return g;
}
static inline __attribute__((always_inline)) int d87(int a) {
  g += d86(a + 87);
  return g;
}
static inline __attribute__((always_inline)) int d88(int a) {
  g += d87(a + 88);
  return g;
}
static inline __attribute__((always_inline)) int d89(int a) {
  g += d88(a + 89);
  return g;
}
static inline __attribute__((always_inline)) int d90(int a) {
  g += d89(a + 90);
  return g;
}
static inline __attribute__((always_inline)) int d91(int a) {
  g += d90(a + 91);
  return g;
}
static inline __attribute__((always_inline)) int d92(int a) {
  g += d91(a + 92);
  return g;
}
static inline __attribute__((always_inline)) int d93(int a) {
  g += d92(a + 93);
  return g;
}
static inline __attribute__((always_inline)) int d94(int a) {
  g += d93(a + 94);
  return g;
}
static inline __attribute__((always_inline)) int d95(int a) {
  g += d94(a + 95);
  return g;
}
static inline __attribute__((always_inline)) int d96(int a) {
  g += d95(a + 96);
  return g;
}
static inline __attribute__((always_inline)) int d97(int a) {
  g += d96(a + 97);
  return g;
}
static inline __attribute__((always_inline)) int d98(int a) {
  g += d97(a + 98);
  return g;
}
static inline __attribute__((always_inline)) int d99(int a) {
  g += d98(a + 99);
  return g;
}
static inline __attribute__((always_inline)) int d100(int a) {
  g += d99(a + 100);
  return g;
}
static inline __attribute__((always_inline)) int d101(int a) {
  g += d100(a + 101);
  return g;
}
static inline __attribute__((always_inline)) int d102(int a) {
  g += d101(a + 102);
  return g;
}
static inline __attribute__((always_inline)) int d103(int a) {
  g += d102(a + 103);
  return g;
}
static inline __attribute__((always_inline)) int d104(int a) {
  g += d103(a + 104);
  return g;
}
static inline __attribute__((always_inline)) int d105(int a) {
  g += d104(a + 105);
  return g;
}
static inline __attribute__((always_inline)) int d106(int a) {
  g += d105(a + 106);
  return g;
}
static inline __attribute__((always_inline)) int d107(int a) {
  g += d106(a + 107);
  return g;
}
static inline __attribute__((always_inline)) int d108(int a) {
  g += d107(a + 108);
  return g;
}
static inline __attribute__((always_inline)) int d109(int a) {
  g += d108(a + 109);
  return g;
}
static inline __attribute__((always_inline)) int d110(int a) {
  g += d109(a + 110);
  return g;
}
static inline __attribute__((always_inline)) int d111(int a) {
  g += d110(a + 111);
  return g;
}
static inline __attribute__((always_inline)) int d112(int a) {
  g += d111(a + 112);
  return g;
}
static inline __attribute__((always_inline)) int d113(int a) {
  g += d112(a + 113);
  return g;
}
static inline __attribute__((always_inline)) int d114(int a) {
  g += d113(a + 114);
  return g;
}
static inline __attribute__((always_inline)) int d115(int a) {
  g += d114(a + 115);
  return g;
}
static inline __attribute__((always_inline)) int d116(int a) {
  g += d115(a + 116);
  return g;
}
static inline __attribute__((always_inline)) int d117(int a) {
  g += d116(a + 117);
  return g;
}
static inline __attribute__((always_inline)) int d118(int a) {
  g += d117(a + 118);
  return g;
}
static inline __attribute__((always_inline)) int d119(int a) {
  g += d118(a + 119);
  return g;
}
static inline __attribute__((always_inline)) int d120(int a) {
  g += d119(a + 120);
  return g;
}
static inline __attribute__((always_inline)) int d121(int a) {
  g += d120(a + 121);
  return g;
}
static inline __attribute__((always_inline)) int d122(int a) {
  g += d121(a + 122);
  return g;
}
static inline __attribute__((always_inline)) int d123(int a) {
  g += d122(a + 123);
  return g;
}
static inline __attribute__((always_inline)) int d124(int a) {
  g += d123(a + 124);
  return g;
}
static inline __attribute__((always_inline)) int d125(int a) {
  g += d124(a + 125);
  return g;
}
static inline __attribute__((always_inline)) int d126(int a) {
  g += d125(a + 126);
  return g;
}
static inline __attribute__((always_inline)) int d127(int a) {
  g += d126(a + 127);
  return g;
}
static inline __attribute__((always_inline)) int d128(int a) {
  g += d127(a + 128);
  return g;
}
static inline __attribute__((always_inline)) int d129(int a) {
  g += d128(a + 129);
  return g;
}
static inline __attribute__((always_inline)) int d130(int a) {
  g += d129(a + 130);
  return g;
}
static inline __attribute__((always_inline)) int d131(int a) {
  g += d130(a + 131);
  return g;
}
static inline __attribute__((always_inline)) int d132(int a) {
  g += d131(a + 132);
  return g;
}
static inline __attribute__((always_inline)) int d133(int a) {
  g += d132(a + 133);
  return g;
}
static inline __attribute__((always_inline)) int d134(int a) {
  g += d133(a + 134);
  return g;
}
static inline __attribute__((always_inline)) int d135(int a) {
  g += d134(a + 135);
  return g;
}
static inline __attribute__((always_inline)) int d136(int a) {
  g += d135(a + 136);
  return g;
}
static inline __attribute__((always_inline)) int d137(int a) {
  g += d136(a + 137);
  return g;
}
static inline __attribute__((always_inline)) int d138(int a) {
  g += d137(a + 138);
  return g;
}
static inline __attribute__((always_inline)) int d139(int a) {
  g += d138(a + 139);
  return g;
}
static inline __attribute__((always_inline)) int d140(int a) {
  g += d139(a + 140);
  return g;
}
static inline __attribute__((always_inline)) int d141(int a) {
  g += d140(a + 141);
  return g;
}
static inline __attribute__((always_inline)) int d142(int a) {
  g += d141(a + 142);
  return g;
}
static inline __attribute__((always_inline)) int d143(int a) {
  g += d142(a + 143);
  return g;
}
static inline __attribute__((always_inline)) int d144(int a) {
  g += d143(a + 144);
  return g;
}
static inline __attribute__((always_inline)) int d145(int a) {
  g += d144(a + 145);
  return g;
}
static inline __attribute__((always_inline)) int d146(int a) {
  g += d145(a + 146);
  return g;
}
static inline __attribute__((always_inline)) int d147(int a) {
  g += d146(a + 147);
  return g;
}
static inline __attribute__((always_inline)) int d148(int a) {
  g += d147(a + 148);
  return g;
}
static inline __attribute__((always_inline)) int d149(int a) {
  g += d148(a + 149);
  return g;
}
static inline __attribute__((always_inline)) int d150(int a) {
  g += d149(a + 150);
  return g;
}
int deep(int a) {
  return d150(a);
}
