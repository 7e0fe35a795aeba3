// Shared by F05 and F06: reference pieces for the covariant detector.
#pragma once
#include "feat.h"
#include "vl_all.h"
typedef std::unique_ptr<VlCovDet, void (*)(VlCovDet *)> CovPtr;
static inline const char *mname(int m) { static const char *n[] = {"?", "DoG", "Hessian", "HessianLaplace", "HarrisLaplace", "MultiscaleHessian", "MultiscaleHarris"}; return n[m]; }
static inline int flog2(double v) { return (int)floor(log2(v)); }
struct Conf { int method = 1, w = 0, h = 0, o0 = -1, nOct = -1, res = 3; double base = 1.6, peak = 0, edge = 10, lap = 0.01, nes = 0.5; bool transposed = false, padded = true, accurate = false; int maxOr = 4; };
static inline void apply(VlCovDet *d, const Conf &t) {
  vl_covdet_set_first_octave(d, t.o0); if (t.nOct > 0) vl_covdet_set_num_octaves(d, t.nOct); vl_covdet_set_octave_resolution(d, t.res); vl_covdet_set_base_scale(d, t.base); vl_covdet_set_peak_threshold(d, t.peak); vl_covdet_set_edge_threshold(d, t.edge); vl_covdet_set_laplacian_peak_threshold(d, t.lap); vl_covdet_set_non_extrema_suppression_threshold(d, t.nes); vl_covdet_set_transposed(d, t.transposed); vl_covdet_set_allow_padded_warping(d, t.padded); vl_covdet_set_aa_accurate_smoothing(d, t.accurate); vl_covdet_set_max_num_orientations(d, t.maxOr); }
// last octave: the smallest octave has at least 16 pixels on each side, never before the first one
static inline int lastOctave(const Conf &t) { double m = std::min(t.w, t.h) - 1.0; int l = m > 0 ? flog2(m / 15.0) : -1000; if (t.nOct > 0) l = std::min(l, t.o0 + t.nOct - 1); return std::max(l, t.o0); }
static inline VlScaleSpaceGeometry geometry(const Conf &t) {
  VlScaleSpaceGeometry g = vl_scalespace_get_default_geometry(t.w, t.h); g.firstOctave = t.o0; g.lastOctave = lastOctave(t); g.octaveResolution = t.res; g.baseScale = t.base * pow(2.0, 1.0 / t.res);
  g.octaveFirstSubdivision = t.method <= VL_COVDET_METHOD_HESSIAN ? -1 : 0; g.octaveLastSubdivision = t.method == VL_COVDET_METHOD_DOG ? t.res + 1 : t.method == VL_COVDET_METHOD_HESSIAN ? t.res : t.res - 1; return g; }
static inline double levelSigma(const VlScaleSpaceGeometry &g, int o, double s) { return g.baseScale * pow(2.0, o + s / g.octaveResolution); }
// the level used to sample a frame whose smaller axis is d when smoothing sigma is wanted
static inline void pickLevel(const VlScaleSpaceGeometry &g, double sigma, double dmin, int &o, int &s, bool &amb) {
  auto sub = [&](int oo) { double v = log2(sigma * dmin / g.baseScale) - oo; if (fabs(v - round(v)) < 1e-6) amb = true; return std::min<int>(g.octaveLastSubdivision, std::max<int>(g.octaveFirstSubdivision, (int)floor(v))); };
  for (o = g.firstOctave; o < g.lastOctave; ++o) { double sg = levelSigma(g, o + 1, sub(o + 1)); if (fabs(sg / dmin - sigma) < 1e-6 * sigma) amb = true; if (sg / dmin > sigma) break; } s = sub(o); }
struct Level { const float *p; int w, h; double step; double at(int x, int y) const { return p[std::min(w - 1, std::max(0, x)) + (size_t)std::min(h - 1, std::max(0, y)) * w]; }
  double bil(double x, double y) const { double fx = floor(x), fy = floor(y), a = x - fx, b = y - fy; int X = (int)std::max(-1e8, std::min(1e8, fx)), Y = (int)std::max(-1e8, std::min(1e8, fy)); return (1 - b) * ((1 - a) * at(X, Y) + a * at(X + 1, Y)) + b * ((1 - a) * at(X, Y + 1) + a * at(X + 1, Y + 1)); } };
static inline Level level(VlCovDet *d, int o, int s) { VlScaleSpaceOctaveGeometry q = vl_scalespace_get_octave_geometry(vl_covdet_get_gss(d), o); return Level{vl_scalespace_get_level(vl_covdet_get_gss(d), o, s), (int)q.width, (int)q.height, q.step}; }
// A is column major; the result is the patch of side 2 R + 1
static inline dvec warp(const Level &L, const double A[4], double tx, double ty, int R, double extent) { int n = 2 * R + 1; dvec p((size_t)n * n); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { double u = (i - R) * extent / R, v = (j - R) * extent / R; p[i + (size_t)j * n] = L.bil((A[0] * u + A[2] * v + tx) / L.step, (A[1] * u + A[3] * v + ty) / L.step); } return p; }
// singular values of a column major 2x2 matrix
static inline void sv2(const double A[4], double &big, double &small) { double e = (A[0] + A[3]) / 2, f = (A[0] - A[3]) / 2, g = (A[1] + A[2]) / 2, h = (A[1] - A[2]) / 2, q = hypot(e, h), r = hypot(f, g); big = q + r; small = fabs(q - r); }
