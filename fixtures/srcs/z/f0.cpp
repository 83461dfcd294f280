#include "n0.h"

volatile int g;
extern "C" int f0(int a) {
  g -= a + 0;
  a += lvl0((int)a);
  return a;
}
