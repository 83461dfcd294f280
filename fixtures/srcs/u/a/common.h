static inline __attribute__((always_inline)) int com_a(int a) {
  a += 3;
  return a ^ 97;
}
