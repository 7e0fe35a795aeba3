// N08: integral images, image gradients (cartesian and polar), generalised distance transform.
#include "img.h"
#include "vl_all.h"
typedef long double ld;
static void integ(float *d, vl_size ds, const float *s, vl_size w, vl_size h, vl_size st) { vl_imintegral_f(d, ds, s, w, h, st); }
static void integ(double *d, vl_size ds, const double *s, vl_size w, vl_size h, vl_size st) { vl_imintegral_d(d, ds, s, w, h, st); }
static void integ(vl_int32 *d, vl_size ds, const vl_int32 *s, vl_size w, vl_size h, vl_size st) { vl_imintegral_i32(d, ds, s, w, h, st); }
static void integ(vl_uint32 *d, vl_size ds, const vl_uint32 *s, vl_size w, vl_size h, vl_size st) { vl_imintegral_ui32(d, ds, s, w, h, st); }
template <class T, class A> static void integral(vt::Ctx &c, const char *nm) {
  size_t w = c.i(c.chance(1, 20) ? 0 : 1, 20), h = c.i(c.chance(1, 20) ? 0 : 1, 20), st = w + (c.b() ? c.i(0, 7) : 0), ds = w + (c.b() ? c.i(0, 7) : 0);
  Img<T> S(w, h, st, c.i(0, 3)), D(w, h, ds, c.i(0, 3)); T sent = (T)123456; S.fill((T)77777); D.fill(sent); vt::Stream s = c.stream(); int cls = c.i(0, 2); bool exact = true;
  for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) { double v = cls == 0 ? (double)s.range(0, 255) : cls == 1 ? (double)s.range(-100, 100) : (std::is_floating_point<T>::value ? s.real(-1, 1) : (double)s.range(0, 1)); if (std::is_unsigned<T>::value) { S.at(x, y) = cls == 2 ? (T)s.below(0xffffffffu) : (T)fabs(v); } else S.at(x, y) = (T)v; }
  if (std::is_floating_point<T>::value && cls == 2) exact = false;
  if (w > 1 && h > 1) c.nontrivial(); c.label("%s class %d", nm, cls); c.note("%s w=%zu h=%zu stride %zu->%zu", nm, w, h, st, ds);
  integ(D.p, ds, S.p, w, h, st);
  std::vector<A> col(w, 0); for (size_t y = 0; y < h; ++y) { A row = 0; for (size_t x = 0; x < w; ++x) { row += (A)S.at(x, y); col[x] = (y ? col[x] : (A)0) + row;
      T g = D.at(x, y); bool ok = exact ? (g == (T)col[x]) : fabsl((ld)g - (ld)col[x]) <= 4 * (ld)std::numeric_limits<T>::epsilon() * (w + h) * (w * h) + 1e-30L;
      VT_ASSERT(c, ok, "integral at (%zu,%zu) is %.10g, sum of pixels is %.10g", x, y, (double)g, (double)col[x]); } }
  if (w) for (size_t y = 0; y + 1 < h; ++y) for (size_t x = w; x < ds; ++x) VT_ASSERT(c, D.p[x + y * ds] == sent, "padding of the integral image written");
}
VT_CHECK(integral_image, 60000, 2000000, "at least 2x2 pixels") { switch (c.i(0, 3)) { case 0: integral<float, ld>(c, "float"); break; case 1: integral<double, ld>(c, "double"); break; case 2: integral<vl_int32, vl_int32>(c, "int32"); break; default: integral<vl_uint32, vl_uint32>(c, "uint32"); } }

static void grad(float *a, float *b, vl_size ws, vl_size hs, const float *s, vl_size w, vl_size h, vl_size st, bool pol) { if (pol) vl_imgradient_polar_f(a, b, ws, hs, s, w, h, st); else vl_imgradient_f(a, b, ws, hs, s, w, h, st); }
static void grad(double *a, double *b, vl_size ws, vl_size hs, const double *s, vl_size w, vl_size h, vl_size st, bool pol) { if (pol) vl_imgradient_polar_d(a, b, ws, hs, s, w, h, st); else vl_imgradient_d(a, b, ws, hs, s, w, h, st); }
template <class T> static void gradient(vt::Ctx &c, bool polar) {
  size_t w = c.i(1, 16), h = c.i(1, 16), st = w + (c.b() ? c.i(0, 7) : 0); int layout = c.i(0, 2); size_t ws = layout == 1 ? 2 : 1, hs = ws * w + (c.b() ? c.i(0, 5) : 0); if (layout == 2) { ws = h + c.i(0, 2); hs = 1; }
  Img<T> S(w, h, st, c.i(0, 3)); S.fill((T)NAN); vt::Stream s = c.stream(); int cls = c.i(0, 4); double amp = c.pick({1.0, 255.0, 1e-2});
  for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) S.at(x, y) = (T)(amp * (cls == 0 ? s.real(-1, 1) : cls == 1 ? (double)s.range(0, 3) : cls == 2 ? (double)x - 0.5 * y : cls == 3 ? (s.below(10) == 0) : 1.0));
  size_t n = (w - 1) * ws + (h - 1) * hs + 1, total = layout == 1 ? n + 1 : 2 * n; std::vector<T> buf; T *A, *B; std::unique_ptr<T[]> m1, m2; T sent = (T)-777;
  if (layout == 1) { m1.reset(new T[total]); A = m1.get(); B = A + 1; std::fill(A, A + total, sent); } else { m1.reset(new T[n]); m2.reset(new T[n]); A = m1.get(); B = m2.get(); std::fill(A, A + n, sent); std::fill(B, B + n, sent); }
  if (w > 1 && h > 1 && cls != 4) c.nontrivial(); c.label("%s layout %d class %d%s", polar ? "polar" : "cartesian", layout, cls, w == 1 || h == 1 ? ", one pixel thick" : ""); c.note("%s %s w=%zu h=%zu stride=%zu output strides (%zu,%zu)", polar ? "polar" : "cartesian", sizeof(T) == 4 ? "f" : "d", w, h, st, ws, hs);
  grad(A, B, ws, hs, S.p, w, h, st, polar); double mx = 0; for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) mx = std::max(mx, fabs((double)S.at(x, y)));
  size_t touched = 0;
  for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) {
    auto px = [&](size_t X, size_t Y) { return (double)S.at(X, Y); }; double gx, gy;
    gx = w == 1 ? 0 : x == 0 ? px(1, y) - px(0, y) : x == w - 1 ? px(x, y) - px(x - 1, y) : 0.5 * (px(x + 1, y) - px(x - 1, y));
    gy = h == 1 ? 0 : y == 0 ? px(x, 1) - px(x, 0) : y == h - 1 ? px(x, y) - px(x, y - 1) : 0.5 * (px(x, y + 1) - px(x, y - 1));
    double a = A[x * ws + y * hs], b = B[x * ws + y * hs], eps = 4 * std::numeric_limits<T>::epsilon() * mx; (void)touched;
    if (!polar) { VT_ASSERT(c, fabs(a - gx) <= eps, "x gradient at (%zu,%zu) is %.9g, expected %.9g", x, y, a, gx); VT_ASSERT(c, fabs(b - gy) <= eps, "y gradient at (%zu,%zu) is %.9g, expected %.9g", x, y, b, gy); }
    else { double m = sqrt(gx * gx + gy * gy); VT_ASSERT(c, a >= 0 && fabs(a - m) <= 2e-4 + 2e-5 * m + 8 * eps, "gradient modulus at (%zu,%zu) is %.9g, expected %.9g", x, y, a, m);
      VT_ASSERT(c, b >= 0 && b <= 2 * M_PI + 1e-5, "gradient angle %.9g at (%zu,%zu) is outside [0,2pi]", b, x, y);
      if (m > 1e-3 && m > 1e3 * eps) { double d = fabs(b - atan2(gy, gx)); d = fmod(d, 2 * M_PI); d = std::min(d, 2 * M_PI - d); VT_ASSERT(c, d <= 0.009, "gradient angle at (%zu,%zu) is %.9g, expected %.9g", x, y, b, atan2(gy, gx)); } }
  }
  std::vector<char> used(total, 0); auto mark = [&](T *base, T *P, size_t o) { for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) used[o + (P - base) + x * ws + y * hs] = 1; };
  if (layout == 1) { mark(A, A, 0); mark(A, B, 0); for (size_t i = 0; i < total; ++i) VT_ASSERT(c, used[i] || A[i] == sent, "element %zu outside the gradient planes was written", i); }
  else { mark(A, A, 0); mark(B, B, n); for (size_t i = 0; i < n; ++i) VT_ASSERT(c, (used[i] || A[i] == sent) && (used[n + i] || B[i] == sent), "element %zu outside the gradient planes was written", i); }
}
VT_CHECK(image_gradient, 80000, 2500000, "at least 2x2 pixels, not constant") { bool p = c.b(); if (c.b()) gradient<float>(c, p); else gradient<double>(c, p); }

static void dt(const float *i, vl_size nc, vl_size nr, vl_size cs, vl_size rs, float *d, vl_uindex *ix, double a, double o) { vl_image_distance_transform_f(i, nc, nr, cs, rs, d, ix, (float)a, (float)o); }
static void dt(const double *i, vl_size nc, vl_size nr, vl_size cs, vl_size rs, double *d, vl_uindex *ix, double a, double o) { vl_image_distance_transform_d(i, nc, nr, cs, rs, d, ix, a, o); }
template <class T> static void distance_transform(vt::Ctx &c) {
  size_t w = c.i(1, 18), h = c.i(1, 10); bool two = c.chance(1, 2), colfirst = c.b(); bool useidx = !c.chance(1, 6); int cls = c.i(0, 5); vt::Stream s = c.stream(); const double INF = std::numeric_limits<double>::infinity();
  auto coeff = [&]() { switch (c.i(0, 4)) { case 0: return 1.0; case 1: return 0.0; case 2: return (double)(T)c.real(0.01, 3); case 3: return (double)(T)c.real(1e-4, 1e-2); default: return (double)(T)c.real(1, 100); } };
  auto offs = [&]() { return c.b() ? 0.0 : c.chance(1, 3) ? (double)c.i(-20, 20) : (double)(T)c.real(-3, 3); };
  double a1 = coeff(), o1 = offs(), a2 = coeff(), o2 = offs();
  std::vector<T> I(w * h); for (auto &v : I) switch (cls) { case 0: v = (T)s.real(-1, 1); break; case 1: v = (T)s.range(0, 3); break; case 2: v = s.below(4) ? (T)INF : (T)0; break; case 3: v = (T)s.real(0, 100); break; case 4: v = s.below(3) ? (T)s.real(-1, 1) : s.below(2) ? (T)INF : (T)-INF; break; default: v = (T)(s.below(8) ? 1e3 : 0); }
  c.label("class %d%s", cls, two ? ", two passes" : ", one pass"); if (w * h > 2) c.nontrivial(); c.note("%s %zux%zu class %d coeff %.6g offset %.6g%s", sizeof(T) == 4 ? "f" : "d", w, h, cls, a1, o1, two ? " (two passes)" : "");
  std::vector<vl_uindex> ix(w * h); for (size_t i = 0; i < w * h; ++i) ix[i] = i; std::vector<T> D(w * h); bool inplace = c.b(); std::vector<T> src = I;
  auto pass = [&](std::vector<T> &in, std::vector<T> &out, bool cols, double a, double o) { if (cols) dt(in.data(), w, h, 1, w, out.data(), useidx ? ix.data() : NULL, a, o); else dt(in.data(), h, w, w, 1, out.data(), useidx ? ix.data() : NULL, a, o); };
  if (inplace) { D = I; pass(D, D, colfirst, a1, o1); } else { pass(src, D, colfirst, a1, o1); VT_ASSERT(c, memcmp(src.data(), I.data(), I.size() * sizeof(T)) == 0, "the input image was modified"); }
  if (two) pass(D, D, !colfirst, a2, o2);
  double mx = 0; for (auto v : I) if (std::isfinite((double)v)) mx = std::max(mx, fabs((double)v)); ld eps = std::numeric_limits<T>::epsilon();
  auto span = [&](bool cols, double a, double o) { ld q = (cols ? w : h) + fabs(o); return (ld)a * q * q; };
  ld tol = 40 * eps * (mx + span(colfirst, a1, o1) + (two ? span(!colfirst, a2, o2) : 0)) + (a1 <= 2 * eps ? span(colfirst, a1, o1) : 0) + (two && a2 <= 2 * eps ? span(!colfirst, a2, o2) : 0) + 1e-30L;
  auto cost = [&](size_t x, size_t y, size_t X, size_t Y) -> ld { ld v = I[X + Y * w]; if (!std::isfinite((double)v)) return v; ld dx = (ld)x - (ld)X, dy = (ld)y - (ld)Y; ld c1 = colfirst ? a1 * (dx - o1) * (dx - o1) : a1 * (dy - o1) * (dy - o1); v += c1; if (two) v += colfirst ? a2 * (dy - o2) * (dy - o2) : a2 * (dx - o2) * (dx - o2); return v; };
  for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) {
    ld best = (ld)INF; size_t bi = 0; for (size_t Y = 0; Y < h; ++Y) for (size_t X = 0; X < w; ++X) { if (!two && (colfirst ? Y != y : X != x)) continue; ld v = cost(x, y, X, Y); if (v < best) { best = v; bi = X + Y * w; } }
    double g = D[x + y * w];
    if (!std::isfinite((double)best)) VT_ASSERT(c, (ld)g == best, "distance at (%zu,%zu) is %g, minimum is %Lg", x, y, g, best);
    else VT_ASSERT(c, fabsl((ld)g - best) <= tol, "distance at (%zu,%zu) is %.10g, minimum over the line%s is %.10Lg (at pixel %zu)", x, y, g, two ? "s" : "", best, bi);
    if (useidx) { size_t k = ix[x + y * w]; VT_ASSERT(c, k < w * h, "index %zu out of range", k); VT_ASSERT(c, two || (colfirst ? k / w == y : k % w == x), "index names a pixel outside the scanned line");
      ld v = cost(x, y, k % w, k / w); VT_ASSERT(c, v == best || fabsl(v - best) <= tol, "index at (%zu,%zu) names pixel %zu with cost %.10Lg, minimum is %.10Lg at %zu", x, y, k, v, best, bi); }
  }
}
VT_CHECK(distance_transform, 80000, 2500000, "more than two pixels") { if (c.b()) distance_transform<float>(c); else distance_transform<double>(c); }
int main(int a, char **b) { return vt::vt_main(a, b); }
