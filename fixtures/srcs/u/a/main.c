#include "common.h"
#include "../b/common.h"
volatile int g_a;
int u_a(int a) {
  g_a = com_a(a);
  return com_b(g_a) * 3;
}
