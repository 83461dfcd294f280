#include "common.h"
#include "../c/common.h"
volatile int g_b;
int u_b(int a) {
  g_b = com_b(a);
  return com_c(g_b) * 3;
}
