#include "q.h"
extern volatile int g;
int h(int a) {
  g -= a;
  return inl(g) + inl(a);
}
