#pragma once
extern volatile int g;
#include "n2.h"
static inline __attribute__((always_inline)) int lvl3(int a) {
  g += a * 5;
  g ^= lvl2((short)(a + 3));
  return g;
}
static inline __attribute__((always_inline)) int lvl3(long a) {
  g += a * 6;
  g ^= lvl2((unsigned)(a + 3));
  return g;
}
static inline __attribute__((always_inline)) int lvl3(char a) {
  g += a * 7;
  g ^= lvl2((int)(a + 3));
  return g;
}
static inline __attribute__((always_inline)) int lvl3(short a) {
  g += a * 8;
  g ^= lvl2((long)(a + 3));
  return g;
}
static inline __attribute__((always_inline)) int lvl3(unsigned a) {
  g += a * 9;
  g ^= lvl2((char)(a + 3));
  return g;
}
