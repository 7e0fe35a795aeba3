// N07: column convolution, triangular convolution, Gaussian smoothing against the direct formulas.
#include "img.h"
#include "vl_all.h"
typedef long double ld;
static void conv(float *d, vl_size ds, const float *s, vl_size w, vl_size h, vl_size st, const float *f, vl_index b, vl_index e, int step, unsigned fl) { vl_imconvcol_vf(d, ds, s, w, h, st, f, b, e, step, fl); }
static void conv(double *d, vl_size ds, const double *s, vl_size w, vl_size h, vl_size st, const double *f, vl_index b, vl_index e, int step, unsigned fl) { vl_imconvcol_vd(d, ds, s, w, h, st, f, b, e, step, fl); }
static void tri(float *d, vl_size ds, const float *s, vl_size w, vl_size h, vl_size st, vl_size f, vl_size step, unsigned fl) { vl_imconvcoltri_f(d, ds, s, w, h, st, f, step, fl); }
static void tri(double *d, vl_size ds, const double *s, vl_size w, vl_size h, vl_size st, vl_size f, vl_size step, unsigned fl) { vl_imconvcoltri_d(d, ds, s, w, h, st, f, step, fl); }
static void smooth(float *d, vl_size ds, const float *s, vl_size w, vl_size h, vl_size st, double sx, double sy) { vl_imsmooth_f(d, ds, s, w, h, st, sx, sy); }
static void smooth(double *d, vl_size ds, const double *s, vl_size w, vl_size h, vl_size st, double sx, double sy) { vl_imsmooth_d(d, ds, s, w, h, st, sx, sy); }

template <class T> static void genimg(vt::Ctx &c, Img<T> &im) {
  int cls = c.i(0, 4); vt::Stream s = c.stream(); size_t px = s.below(im.w ? im.w : 1), py = s.below(im.h ? im.h : 1);
  im.fill((T)NAN);   // padding must never be used
  for (size_t y = 0; y < im.h; ++y) for (size_t x = 0; x < im.w; ++x) { double v = 0;
    switch (cls) { case 0: v = s.real(-1, 1); break; case 1: v = (double)s.range(-5, 5); break; case 2: v = (x == px && y == py) ? 1 : 0; break; case 3: v = 1; break; default: v = s.real(0, 255); }
    im.at(x, y) = (T)v; }
  c.label("image class %d", cls);
}
struct Geo { size_t w, h, st, off, ds, doff; int step; bool transp, zero; unsigned flags; size_t dh; };
static Geo geo(vt::Ctx &c) {
  Geo g; g.w = c.i(1, 20); g.h = c.i(1, 24); switch (c.i(0, 2)) { case 0: g.st = g.w; break; case 1: g.st = g.w + c.i(1, 9); break; default: g.st = (g.w + 15) / 16 * 16; }
  g.off = c.chance(1, 3) ? c.i(1, 7) : 0; g.step = c.chance(1, 3) ? c.i(2, 5) : 1; g.transp = c.b(); g.zero = c.b(); g.flags = (g.transp ? VL_TRANSPOSE : 0) | (g.zero ? VL_PAD_BY_ZERO : VL_PAD_BY_CONTINUITY);
  g.dh = (g.h - 1) / g.step + 1; g.ds = (g.transp ? g.dh : g.w) + (c.chance(1, 3) ? c.i(1, 6) : 0); g.doff = c.i(0, 3); return g;
}
template <class T> static void check_dst(vt::Ctx &c, const Geo &g, Img<T> &D, T sent, const std::vector<ld> &e, const std::vector<ld> &tol) {
  for (size_t x = 0; x < g.w; ++x) for (size_t y = 0; y < g.dh; ++y) {
    T v = g.transp ? D.at(y, x) : D.at(x, y);
    if (!(fabsl((ld)v - e[x + y * g.w]) <= tol[x + y * g.w])) c.fail("output for column %zu, row %zu is %.10g, direct formula %.10Lg", x, y * g.step, (double)v, e[x + y * g.w]);
  }
  size_t cw = g.transp ? g.dh : g.w, ch = g.transp ? g.w : g.dh;
  for (size_t y = 0; y + 1 < ch; ++y) for (size_t x = cw; x < g.ds; ++x) VT_ASSERT(c, D.p[x + y * g.ds] == sent, "padding of the destination was written at (%zu,%zu)", x, y);
}
template <class T> static void column(vt::Ctx &c) {
  bool simd = c.b(); vl_set_simd_enabled(simd); Geo g = geo(c); Img<T> S(g.w, g.h, g.st, g.off); genimg(c, S);
  long b, e; switch (c.i(0, 3)) { case 0: e = c.i(0, 5); b = -e; break; case 1: b = -c.i(0, 8); e = c.i(0, 8); break; case 2: e = c.i(0, 30); b = -e; break; default: b = c.i(-12, 12); e = b + c.i(0, 8); }
  bool has0 = b <= 0 && e >= 0; c.label(has0 ? "support contains 0" : "support excludes 0");
  size_t fn = e - b + 1; std::unique_ptr<T[]> f(new T[fn]); vt::Stream s = c.stream(); for (size_t i = 0; i < fn; ++i) f[i] = (T)(s.below(4) ? s.real(-1, 1) : 0);
  Img<T> D(g.transp ? g.dh : g.w, g.transp ? g.w : g.dh, g.ds, g.doff); T sent = (T)-777; D.fill(sent);
  bool vec = simd && g.st % 16 == 0 && g.off % 4 == 0 && g.w > 4; c.label(vec ? "vector path possible" : "scalar path"); if (fn > 1 && g.h > 1) c.nontrivial();
  c.note("%s w=%zu h=%zu stride=%zu off=%zu filter [%ld,%ld] step=%d flags=%u simd=%d", sizeof(T) == 4 ? "f" : "d", g.w, g.h, g.st, g.off, b, e, g.step, g.flags, simd);
  conv(D.p, g.ds, S.p, g.w, g.h, g.st, f.get(), b, e, g.step, g.flags);
  std::vector<ld> ref(g.w * g.dh), tol(g.w * g.dh);
  for (size_t x = 0; x < g.w; ++x) for (size_t yy = 0; yy < g.dh; ++yy) { ld a = 0, m = 0; long y = yy * g.step;
    for (long k = b; k <= e; ++k) { long p = y - k; ld v; if (p < 0 || p >= (long)g.h) { if (g.zero) continue; p = p < 0 ? 0 : g.h - 1; } v = S.at(x, p); a += v * f[k - b]; m += fabsl(v * f[k - b]); }
    ref[x + yy * g.w] = a; tol[x + yy * g.w] = (fn + 4) * (ld)std::numeric_limits<T>::epsilon() * m + 1e-30L; }
  check_dst(c, g, D, sent, ref, tol);
}
VT_CHECK(column_convolution, 120000, 4000000, "filter longer than 1 and image higher than 1") { if (c.b()) column<float>(c); else column<double>(c); }
template <class T> static void triangular(vt::Ctx &c) {
  vl_set_simd_enabled(c.b()); Geo g = geo(c); Img<T> S(g.w, g.h, g.st, g.off); genimg(c, S); long F = c.chance(1, 5) ? c.i(1, 60) : c.i(1, 8);
  Img<T> D(g.transp ? g.dh : g.w, g.transp ? g.w : g.dh, g.ds, g.doff); T sent = (T)-777; D.fill(sent); if (F > 1 && g.h > 1) c.nontrivial(); c.label(F > (long)g.h ? "filter longer than image" : "filter fits");
  c.note("%s w=%zu h=%zu stride=%zu triangle %ld step=%d flags=%u", sizeof(T) == 4 ? "f" : "d", g.w, g.h, g.st, F, g.step, g.flags);
  tri(D.p, g.ds, S.p, g.w, g.h, g.st, F, g.step, g.flags);
  std::vector<ld> ref(g.w * g.dh), tol(g.w * g.dh);
  for (size_t x = 0; x < g.w; ++x) { ld mx = 0; for (size_t y = 0; y < g.h; ++y) mx = std::max(mx, fabsl((ld)S.at(x, y)));
    for (size_t yy = 0; yy < g.dh; ++yy) { ld a = 0; long y = yy * g.step;
      for (long k = -F + 1; k < F; ++k) { long p = y - k; if (p < 0 || p >= (long)g.h) { if (g.zero) continue; p = p < 0 ? 0 : g.h - 1; } a += (ld)S.at(x, p) * (F - labs(k)); }
      ref[x + yy * g.w] = a / ((ld)F * F); tol[x + yy * g.w] = 8 * (ld)std::numeric_limits<T>::epsilon() * mx * (1 + (ld)(g.h + 2 * F) * (g.h + 2 * F) / ((ld)F * F) + (g.h + F)) + 1e-30L; } }
  check_dst(c, g, D, sent, ref, tol);
}
VT_CHECK(triangular_convolution, 60000, 2000000, "filter longer than 1 and image higher than 1") { if (c.b()) triangular<float>(c); else triangular<double>(c); }
template <class T> static void gauss(vt::Ctx &c) {
  vl_set_simd_enabled(c.b()); size_t w = c.i(1, 24), h = c.i(1, 24), st = c.b() ? w : w + c.i(0, 9), ds = w + c.i(0, 5); if (c.chance(1, 4)) st = (w + 15) / 16 * 16;
  Img<T> S(w, h, st, c.i(0, 3)), D(w, h, ds, 0); genimg(c, S); T sent = (T)-777; D.fill(sent);
  auto sig = [&]() { return c.chance(1, 8) ? 1e-3 : c.real(0.05, 4); }; double sx = sig(), sy = c.b() ? sx : sig(); if (w > 1 && h > 1) c.nontrivial(); c.label(sx == sy ? "isotropic" : "anisotropic");
  c.note("%s w=%zu h=%zu sigma=(%.6g,%.6g)", sizeof(T) == 4 ? "f" : "d", w, h, sx, sy);
  smooth(D.p, ds, S.p, w, h, st, sx, sy);
  auto kern = [](double s) { long r = (long)std::ceil(3 * s); std::vector<ld> k(2 * r + 1); ld m = 0; for (long i = -r; i <= r; ++i) m += k[i + r] = i == 0 ? 1 : expl(-0.5L * i * i / ((ld)s * s)); for (auto &v : k) v /= m; return k; };
  auto kx = kern(sx), ky = kern(sy); long rx = kx.size() / 2, ry = ky.size() / 2; std::vector<ld> tmp(w * h); ld mx = 0;
  for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) { ld a = 0; for (long k = -ry; k <= ry; ++k) a += ky[k + ry] * S.at(x, std::min<long>(h - 1, std::max<long>(0, (long)y - k))); tmp[x + y * w] = a; mx = std::max(mx, fabsl((ld)S.at(x, y))); }
  for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) { ld a = 0; for (long k = -rx; k <= rx; ++k) a += kx[k + rx] * tmp[std::min<long>(w - 1, std::max<long>(0, (long)x - k)) + y * w];
    VT_ASSERT(c, fabsl(a - D.at(x, y)) <= 20 * (ld)std::numeric_limits<T>::epsilon() * mx * 2 + 1e-30L, "smoothed (%zu,%zu) = %.10g, separable Gaussian gives %.10Lg", x, y, (double)D.at(x, y), a); }
  for (size_t y = 0; y + 1 < h; ++y) for (size_t x = w; x < ds; ++x) VT_ASSERT(c, D.p[x + y * ds] == sent, "padding written");
}
VT_CHECK(gaussian_smoothing, 30000, 1000000, "at least 2x2 pixels") { if (c.b()) gauss<float>(c); else gauss<double>(c); }
int main(int a, char **b) { return vt::vt_main(a, b); }
