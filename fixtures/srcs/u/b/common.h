static inline __attribute__((always_inline)) int com_b(int a) {
  a += 3;
  a += 3;
  return a ^ 98;
}
