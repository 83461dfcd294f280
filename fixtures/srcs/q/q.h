static inline __attribute__((always_inline)) int inl(int a) {
  a *= 3;
  return a ^ 5;
}
