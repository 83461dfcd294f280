#include "n3.h"
#include "n0.h"
#include "n1.h"

extern "C" int f5(int a) {
  g -= a + 0;
  a += lvl3((int)a);
  g -= a + 1;
  a += lvl0((long)a);
  g -= a + 2;
  a += lvl1((char)a);
  return a;
}
