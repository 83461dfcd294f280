#include "common.h"
#include "../a/common.h"
volatile int g_c;
int u_c(int a) {
  g_c = com_c(a);
  return com_a(g_c) * 3;
}
