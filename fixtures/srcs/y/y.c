volatile int g;
int yy0(int a) {
  g += a * 3;
  return g;
}
int yy1(int a) {
  g += a * 4;
  return g;
}
__asm__(".globl behind1\n.type behind1,@function\nbehind1: ret\nnop\n.size behind1,2\n");
int yy2(int a) {
  g += a * 5;
  return g;
}
int yy3(int a) {
  g += a * 6;
  return g;
}
__asm__(".globl behind3\n.type behind3,@function\nbehind3: ret\nnop\n.size behind3,2\n");
int yy4(int a) {
  g += a * 7;
  return g;
}
int yy5(int a) {
  g += a * 8;
  return g;
}
