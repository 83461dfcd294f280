volatile int w5_g0;
static __inline int w5_i0(int a) {
  return a * 4 + w5_g0;
}
__declspec(dllexport) int w5_f0(int a) {
  w5_g0 += a;
  return w5_i0(a);
}
volatile int w5_g1;
static __inline int w5_i1(int a) {
  return a * 5 + w5_g1;
}
__declspec(dllexport) int w5_f1(int a) {
  w5_g1 += a;
  w5_g1 += a;
  return w5_i1(a);
}
volatile int w5_g2;
static __inline int w5_i2(int a) {
  return a * 6 + w5_g2;
}
__declspec(dllexport) int w5_f2(int a) {
  w5_g2 += a;
  w5_g2 += a;
  w5_g2 += a;
  return w5_i2(a);
}
volatile int w5_g3;
static __inline int w5_i3(int a) {
  return a * 7 + w5_g3;
}
__declspec(dllexport) int w5_f3(int a) {
  w5_g3 += a;
  w5_g3 += a;
  w5_g3 += a;
  w5_g3 += a;
  return w5_i3(a);
}
volatile int w5_g4;
static __inline int w5_i4(int a) {
  return a * 8 + w5_g4;
}
__declspec(dllexport) int w5_f4(int a) {
  w5_g4 += a;
  w5_g4 += a;
  w5_g4 += a;
  w5_g4 += a;
  w5_g4 += a;
  return w5_i4(a);
}
