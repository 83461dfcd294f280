#pragma once
__attribute__((always_inline)) inline int util_mix(int a, int b) {
  int r = a * 31 + b;
  for (int i = 0; i < b; i++) r ^= (r << 3) + i;
  return r;
}
