volatile int g5;
int cs_5(int a) {
  g5 += a;
  g5 += a;
  g5 += a;
  g5 += a;
  g5 += a;
  g5 += a;
  return g5;
}
