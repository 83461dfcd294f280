#include "n0.h"
#include "n2.h"

extern "C" int f4(int a) {
  g -= a + 0;
  a += lvl0((unsigned)a);
  g -= a + 1;
  a += lvl2((int)a);
  return a;
}
