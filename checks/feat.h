// Shared by the feature checks: structured random images and a double precision Gaussian reference.
#pragma once
#include "vt.h"
#include <array>
typedef std::vector<double> dvec; typedef std::vector<float> fvec;
static inline const char *imclass(int k) { static const char *n[] = {"noise", "blobs", "steps", "smooth waves", "checker", "single dot", "constant", "few levels"}; return n[k]; }
// fills a w x h image; returns the class drawn
static inline int genimg(vt::Ctx &c, fvec &p, int w, int h, double amp, int forced = -1) {
  p.assign((size_t)w * h, 0); int k = forced >= 0 ? forced : (int)c.pick({1, 0, 2, 3, 4, 5, 6, 7, 1, 0, 1}); vt::Stream s = c.stream();
  auto put = [&](int x, int y, double v) { p[x + (size_t)y * w] = (float)(amp * v); };
  if (k == 1) { int nb = 1 + (int)s.below(6); dvec a; for (int i = 0; i < nb; ++i) { a.push_back(s.real(-2, w + 1)); a.push_back(s.real(-2, h + 1)); a.push_back(exp(s.real(log(0.7), log(std::max(2.0, std::min(w, h) / 4.0))))); a.push_back(exp(s.real(-0.6, 0.6))); a.push_back(s.real(-1, 1)); a.push_back(s.real(0, 3.15)); }
    double nz = s.below(2) ? 0 : 0.02; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double v = 0.5 + nz * s.real(-1, 1); for (int i = 0; i < nb; ++i) { double *q = &a[6 * i], dx = x - q[0], dy = y - q[1], u = (cos(q[5]) * dx + sin(q[5]) * dy) / (q[2] * q[3]), t = (-sin(q[5]) * dx + cos(q[5]) * dy) * q[3] / q[2]; v += 0.5 * q[4] * exp(-0.5 * (u * u + t * t)); } put(x, y, v); } return k; }
  double f1 = s.real(0.05, 1.2), f2 = s.real(0.05, 1.2), ph = s.real(0, 6); int cs = 1 + (int)s.below(6), dx = (int)s.below(w), dy = (int)s.below(h);
  std::vector<std::array<int, 4>> rc; for (int i = 0; i < 5; ++i) { int x0 = (int)s.below(w), y0 = (int)s.below(h); rc.push_back({x0, y0, x0 + 1 + (int)s.below(w), y0 + 1 + (int)s.below(h)}); } double lv[5]; for (double &v : lv) v = s.uni();
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double v = 0; switch (k) { case 0: v = s.uni(); break; case 2: for (int i = 0; i < 5; ++i) if (x >= rc[i][0] && y >= rc[i][1] && x < rc[i][2] && y < rc[i][3]) v = lv[i]; break; case 3: v = 0.5 + 0.25 * sin(f1 * x + ph) + 0.25 * cos(f2 * y + 0.3 * x); break; case 4: v = ((x / cs + y / cs) & 1); break; case 5: v = (x == dx && y == dy); break; case 6: v = lv[0]; break; default: v = s.below(4) / 4.0; } put(x, y, v); }
  return k;
}
// separable Gaussian, support ceil(4 sigma) unless told otherwise, continuity padding, normalised
static inline dvec gsmooth(const dvec &in, int w, int h, double sigma, double support = 4.0) {
  if (w == 0 || h == 0 || sigma <= 0) return in; int W = std::max((int)ceil(support * sigma), 1); dvec k(2 * W + 1); double a = 0; for (int j = -W; j <= W; ++j) a += k[j + W] = exp(-0.5 * (j / sigma) * (j / sigma)); for (double &v : k) v /= a;
  dvec t(in.size()), o(in.size());
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double v = 0; for (int j = -W; j <= W; ++j) v += k[j + W] * in[x + (size_t)std::min(h - 1, std::max(0, y + j)) * w]; t[x + (size_t)y * w] = v; }
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double v = 0; for (int j = -W; j <= W; ++j) v += k[j + W] * t[std::min(w - 1, std::max(0, x + j)) + (size_t)y * w]; o[x + (size_t)y * w] = v; }
  return o;
}
// doubling by linear interpolation, last pixel repeated
static inline dvec upsample2(const dvec &in, int w, int h) {
  dvec o((size_t)4 * w * h); for (int y = 0; y < 2 * h; ++y) for (int x = 0; x < 2 * w; ++x) { int x0 = x / 2, y0 = y / 2, x1 = std::min(w - 1, x0 + (x & 1)), y1 = std::min(h - 1, y0 + (y & 1)); o[x + (size_t)y * 2 * w] = 0.25 * (in[x0 + (size_t)y0 * w] + in[x1 + (size_t)y0 * w] + in[x0 + (size_t)y1 * w] + in[x1 + (size_t)y1 * w]); } return o; }
static inline dvec subsample(const dvec &in, int w, int h, int step) { int ow = w / step, oh = h / step; dvec o((size_t)ow * oh); for (int y = 0; y < oh; ++y) for (int x = 0; x < ow; ++x) o[x + (size_t)y * ow] = in[(size_t)x * step + (size_t)y * step * w]; return o; }
static inline double vmaxabs(const fvec &p) { double m = 0; for (float v : p) m = std::max(m, (double)fabsf(v)); return m; }
static inline bool inv3(const double A[3][3], double B[3][3]) { double d = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]); if (d == 0 || !std::isfinite(d)) return false;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int a = (j + 1) % 3, b = (j + 2) % 3, e = (i + 1) % 3, f = (i + 2) % 3; B[i][j] = (A[a][e] * A[b][f] - A[a][f] * A[b][e]) / d; } return true; }
