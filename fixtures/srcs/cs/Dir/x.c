volatile int g0;
int cs_0(int a) {
  g0 += a;
  return g0;
}
