#include "n3.h"
#include "n1.h"

extern "C" int f1(int a) {
  g -= a + 0;
  a += lvl3((long)a);
  g -= a + 1;
  a += lvl1((char)a);
  return a;
}
