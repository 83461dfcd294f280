volatile int w6_g0;
static __inline int w6_i0(int a) {
  return a * 5 + w6_g0;
}
__declspec(dllexport) int w6_f0(int a) {
  w6_g0 += a;
  return w6_i0(a);
}
volatile int w6_g1;
static __inline int w6_i1(int a) {
  return a * 6 + w6_g1;
}
__declspec(dllexport) int w6_f1(int a) {
  w6_g1 += a;
  w6_g1 += a;
  return w6_i1(a);
}
volatile int w6_g2;
static __inline int w6_i2(int a) {
  return a * 7 + w6_g2;
}
__declspec(dllexport) int w6_f2(int a) {
  w6_g2 += a;
  w6_g2 += a;
  w6_g2 += a;
  return w6_i2(a);
}
volatile int w6_g3;
static __inline int w6_i3(int a) {
  return a * 8 + w6_g3;
}
__declspec(dllexport) int w6_f3(int a) {
  w6_g3 += a;
  w6_g3 += a;
  w6_g3 += a;
  w6_g3 += a;
  return w6_i3(a);
}
volatile int w6_g4;
static __inline int w6_i4(int a) {
  return a * 9 + w6_g4;
}
__declspec(dllexport) int w6_f4(int a) {
  w6_g4 += a;
  w6_g4 += a;
  w6_g4 += a;
  w6_g4 += a;
  w6_g4 += a;
  return w6_i4(a);
}
volatile int w6_g5;
static __inline int w6_i5(int a) {
  return a * 10 + w6_g5;
}
__declspec(dllexport) int w6_f5(int a) {
  w6_g5 += a;
  w6_g5 += a;
  w6_g5 += a;
  w6_g5 += a;
  w6_g5 += a;
  w6_g5 += a;
  return w6_i5(a);
}
