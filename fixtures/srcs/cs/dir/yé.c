volatile int g6;
int cs_6(int a) {
  g6 += a;
  g6 += a;
  g6 += a;
  g6 += a;
  g6 += a;
  g6 += a;
  g6 += a;
  return g6;
}
