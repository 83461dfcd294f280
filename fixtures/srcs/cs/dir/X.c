volatile int g2;
int cs_2(int a) {
  g2 += a;
  g2 += a;
  g2 += a;
  return g2;
}
