volatile int g;
int f(int a) {
  g += a;
  return g;
}
