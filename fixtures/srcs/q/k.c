#include "q.h"
extern volatile int g;
int k(int a) {
  g ^= inl(a);
  return g + 2;
}
