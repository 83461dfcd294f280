#pragma once
#include "util.h"
__attribute__((always_inline)) inline int deep_two(volatile int *p, int a) {
  *p = util_mix(a, *p);
  return *p + 1;
}
__attribute__((always_inline)) inline int deep_one(volatile int *p, int a) {
  int x = deep_two(p, a + 1);
  *p = x;
  return deep_two(p, x);
}
