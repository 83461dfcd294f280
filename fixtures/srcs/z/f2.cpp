#include "n1.h"
#include "n0.h"

extern "C" int f2(int a) {
  g -= a + 0;
  a += lvl1((char)a);
  g -= a + 1;
  a += lvl0((short)a);
  return a;
}
