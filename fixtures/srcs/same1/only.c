volatile int g;
int same_fun(int a) {
  g += a;
  g ^= 5;
  return g;
}
