// shared image helpers for checks
#pragma once
#include "vt.h"
template <class T> struct Img {   // exactly sized allocation: (h-1)*stride + w elements, starting `off` elements after a 64-byte boundary
  char *raw; T *p; size_t w, h, stride, n;
  Img(size_t w_, size_t h_, size_t stride_, size_t off = 0) : w(w_), h(h_), stride(stride_) { n = (w && h) ? (h - 1) * stride + w : 0; void *q; if (posix_memalign(&q, 64, (n + off) * sizeof(T) + 1)) abort(); free(q);
    if (posix_memalign(&q, 64, std::max<size_t>(1, (n + off) * sizeof(T)))) abort(); raw = (char *)q; p = (T *)raw + off; }
  Img(const Img &) = delete; ~Img() { free(raw); }
  T &at(size_t x, size_t y) { return p[x + y * stride]; }
  const T &at(size_t x, size_t y) const { return p[x + y * stride]; }
  void fill(T v) { for (size_t i = 0; i < n; ++i) p[i] = v; }
};
