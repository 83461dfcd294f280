volatile int g4;
int cs_4(int a) {
  g4 += a;
  g4 += a;
  g4 += a;
  g4 += a;
  g4 += a;
  return g4;
}
