volatile int g1;
int cs_1(int a) {
  g1 += a;
  g1 += a;
  return g1;
}
