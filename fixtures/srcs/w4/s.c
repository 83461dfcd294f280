volatile int w4_g0;
static __inline int w4_i0(int a) {
  return a * 3 + w4_g0;
}
__declspec(dllexport) int w4_f0(int a) {
  w4_g0 += a;
  return w4_i0(a);
}
volatile int w4_g1;
static __inline int w4_i1(int a) {
  return a * 4 + w4_g1;
}
__declspec(dllexport) int w4_f1(int a) {
  w4_g1 += a;
  w4_g1 += a;
  return w4_i1(a);
}
volatile int w4_g2;
static __inline int w4_i2(int a) {
  return a * 5 + w4_g2;
}
__declspec(dllexport) int w4_f2(int a) {
  w4_g2 += a;
  w4_g2 += a;
  w4_g2 += a;
  return w4_i2(a);
}
volatile int w4_g3;
static __inline int w4_i3(int a) {
  return a * 6 + w4_g3;
}
__declspec(dllexport) int w4_f3(int a) {
  w4_g3 += a;
  w4_g3 += a;
  w4_g3 += a;
  w4_g3 += a;
  return w4_i3(a);
}
