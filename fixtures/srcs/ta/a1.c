volatile int g;
int one(int a) {
  g += a;
  return g * 3;
}
