#pragma once
extern volatile int g;
#include "n0.h"
static inline __attribute__((always_inline)) int lvl1(int a) {
  g += a * 3;
  g ^= lvl0((long)(a + 1));
  return g;
}
static inline __attribute__((always_inline)) int lvl1(long a) {
  g += a * 4;
  g ^= lvl0((char)(a + 1));
  return g;
}
static inline __attribute__((always_inline)) int lvl1(char a) {
  g += a * 5;
  g ^= lvl0((short)(a + 1));
  return g;
}
static inline __attribute__((always_inline)) int lvl1(short a) {
  g += a * 6;
  g ^= lvl0((unsigned)(a + 1));
  return g;
}
static inline __attribute__((always_inline)) int lvl1(unsigned a) {
  g += a * 7;
  g ^= lvl0((int)(a + 1));
  return g;
}
