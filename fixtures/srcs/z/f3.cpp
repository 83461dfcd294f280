#include "n2.h"
#include "n3.h"

extern "C" int f3(int a) {
  g -= a + 0;
  a += lvl2((short)a);
  g -= a + 1;
  a += lvl3((unsigned)a);
  return a;
}
