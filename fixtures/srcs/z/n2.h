#pragma once
extern volatile int g;
#include "n1.h"
static inline __attribute__((always_inline)) int lvl2(int a) {
  g += a * 4;
  g ^= lvl1((char)(a + 2));
  return g;
}
static inline __attribute__((always_inline)) int lvl2(long a) {
  g += a * 5;
  g ^= lvl1((short)(a + 2));
  return g;
}
static inline __attribute__((always_inline)) int lvl2(char a) {
  g += a * 6;
  g ^= lvl1((unsigned)(a + 2));
  return g;
}
static inline __attribute__((always_inline)) int lvl2(short a) {
  g += a * 7;
  g ^= lvl1((int)(a + 2));
  return g;
}
static inline __attribute__((always_inline)) int lvl2(unsigned a) {
  g += a * 8;
  g ^= lvl1((long)(a + 2));
  return g;
}
