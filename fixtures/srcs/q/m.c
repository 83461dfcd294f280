extern volatile int g;
int m(int a) {
  g |= a;
  return g;
}
