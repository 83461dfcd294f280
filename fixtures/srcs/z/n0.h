#pragma once
extern volatile int g;
static inline __attribute__((always_inline)) int lvl0(int a) {
  g += a * 2;
  return g;
}
static inline __attribute__((always_inline)) int lvl0(long a) {
  g += a * 3;
  return g;
}
static inline __attribute__((always_inline)) int lvl0(char a) {
  g += a * 4;
  return g;
}
static inline __attribute__((always_inline)) int lvl0(short a) {
  g += a * 5;
  return g;
}
static inline __attribute__((always_inline)) int lvl0(unsigned a) {
  g += a * 6;
  return g;
}
