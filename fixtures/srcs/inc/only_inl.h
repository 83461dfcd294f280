#pragma once
__attribute__((always_inline)) inline int only_inl(volatile int *p) { return *p + *p * 3; }
