static inline __attribute__((always_inline)) int com_c(int a) {
  a += 3;
  a += 3;
  a += 3;
  return a ^ 99;
}
