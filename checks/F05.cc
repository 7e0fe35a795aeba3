// F05: covariant detector.
#include "covdet.h"
extern "C" {
typedef struct { vl_index xi, yi; float x, y, peakScore, edgeScore; } VlCovDetExtremum2;
typedef struct { vl_index xi, yi, zi; float x, y, z, peakScore, edgeScore; } VlCovDetExtremum3;
vl_size vl_find_local_extrema_3(vl_index **extrema, vl_size *bufferSize, float const *map, vl_size width, vl_size height, vl_size depth, double threshold);
vl_size vl_find_local_extrema_2(vl_index **extrema, vl_size *bufferSize, float const *map, vl_size width, vl_size height, double threshold);
vl_bool vl_refine_local_extreum_3(VlCovDetExtremum3 *refined, float const *map, vl_size width, vl_size height, vl_size depth, vl_index x, vl_index y, vl_index z);
double vl_covdet_get_laplacian_peak_threshold(VlCovDet const *self);
vl_bool vl_refine_local_extreum_2(VlCovDetExtremum2 *refined, float const *map, vl_size width, vl_size height, vl_index x, vl_index y);
}
struct Map { std::function<double(int, int, int)> f; int w, h, d; bool three; };   // d = 1 and three = false for planar maps
static bool isext(const Map &m, int x, int y, int z, double thr) {
  double v = m.f(x, y, z); bool mx = v >= thr, mn = v <= -thr; for (int a = m.three ? -1 : 0; a <= (m.three ? 1 : 0) && (mx || mn); ++a) for (int b = -1; b <= 1; ++b) for (int e = -1; e <= 1; ++e) if (a || b || e) { double u = m.f(x + e, y + b, z + a); if (!(v > u)) mx = false; if (!(v < u)) mn = false; } return mx || mn; }
typedef std::vector<std::array<int, 3>> Pts;
static Pts extrema(const Map &m, double thr) { Pts r; for (int z = m.three ? 1 : 0; z < (m.three ? m.d - 1 : 1); ++z) for (int y = 1; y + 1 < m.h; ++y) for (int x = 1; x + 1 < m.w; ++x) if (isext(m, x, y, z, thr)) r.push_back({x, y, z}); return r; }

VT_CHECK(local_extrema, 60000, 600000, "at least one extremum") {
  bool three = c.b(); Map m; m.three = three; m.w = (int)c.i(1, 14); m.h = (int)c.i(1, 14); m.d = three ? (int)c.i(1, 6) : 1; int lv = (int)c.pick({0, 0, 2, 3, 5, 20}); double thr = c.pick({0.0, 0.0, 0.25, 0.5, 0.9}); vt::Stream s = c.stream(); c.note("%dx%dx%d %s levels %d threshold %g", m.w, m.h, m.d, three ? "volume" : "plane", lv, thr); int bias = (int)c.i(-1, 1);
  fvec a((size_t)m.w * m.h * m.d); for (float &v : a) { double u = lv ? (double)s.below(lv) / (lv - 1 ? lv - 1 : 1) : s.uni(); v = (float)(2 * u - 1 + bias * 0.7); } int nrun = (int)c.i(1, 3); vl_index *buf = 0; vl_size bs = 0; m.f = [&](int x, int y, int z) { return (double)a[x + (size_t)y * m.w + (size_t)z * m.w * m.h]; };
  if (lv) thr = (float)thr; Pts want = extrema(m, thr); if (want.size()) c.nontrivial(); c.label("%s extrema", want.size() ? "some" : "no"); fvec copy = a;
  for (int r = 0; r < nrun; ++r) {
    vl_size n = three ? vl_find_local_extrema_3(&buf, &bs, a.data(), m.w, m.h, m.d, thr) : vl_find_local_extrema_2(&buf, &bs, a.data(), m.w, m.h, thr); int k = three ? 3 : 2; Pts got; for (vl_size i = 0; i < n; ++i) got.push_back({(int)buf[k * i], (int)buf[k * i + 1], three ? (int)buf[k * i + 2] : 0}); std::sort(got.begin(), got.end()); Pts w2 = want; std::sort(w2.begin(), w2.end());
    if (got != w2) { vl_free(buf); VT_ASSERT(c, false, "%d extrema reported, %d in the map (call %d)", (int)got.size(), (int)w2.size(), r); }
  }
  if (buf) vl_free(buf); VT_ASSERT(c, copy == a, "map modified"); }
VT_CHECK(many_extrema, 60, 600, "more extrema than one buffer enlargement holds") {   // buffer growth
  int w = (int)c.i(120, 400), h = (int)c.i(120, 400); fvec a((size_t)w * h, 0); int st = (int)c.i(2, 4); size_t cnt = 0; for (int y = 1; y + 1 < h; y += st) for (int x = 1; x + 1 < w; x += st) { a[x + (size_t)y * w] = 1 + 0.001f * (float)((x * 7 + y) % 13); ++cnt; } if (cnt > 2100) c.nontrivial(); c.note("%dx%d spacing %d", w, h, st); vl_index *buf = 0; vl_size bs = 0; vl_size n = vl_find_local_extrema_2(&buf, &bs, a.data(), w, h, 0.5); bool ok = n == cnt; for (vl_size i = 0; i < n && ok; ++i) ok = a[buf[2 * i] + (size_t)buf[2 * i + 1] * w] >= 1 && (i == 0 || buf[2 * i] != buf[2 * i - 2] || buf[2 * i + 1] != buf[2 * i - 1]); if (buf) vl_free(buf); VT_ASSERT(c, ok, "%d extrema reported of %d", (int)n, (int)cnt); }

// quadratic refinement. st: 2 accepted, 1 undecided, 0 rejected
struct Ref { int st; double x, y, z, peak, edge; int xi, yi; double err, perr, aerr; };   // errors of position, peak and of the edge measure (1 + t)^2 / t
static double emeasure(double t) { return t < 1 ? 4 : (1 + t) * (1 + t) / t; }
static Ref refine(const Map &m, int x, int y, int z) {
  Ref r; r.st = 2; double b[3] = {0, 0, 0}, g[3] = {0, 0, 0}, A[3][3], I[3][3]; int n = m.three ? 3 : 2; double err = 0, scale = 0; bool amb = false; int cx = x, cy = y;
  for (int it = 0; it < 5; ++it) {
    auto f = [&](int p, int q, int t) { return m.f(cx + p, cy + q, z + t); }; scale = 0; for (int a = m.three ? -1 : 0; a <= (m.three ? 1 : 0); ++a) for (int p = -1; p <= 1; ++p) for (int q = -1; q <= 1; ++q) scale = std::max(scale, fabs(f(q, p, a)));
    for (auto &row : A) for (double &v : row) v = 0; g[0] = 0.5 * (f(1, 0, 0) - f(-1, 0, 0)); g[1] = 0.5 * (f(0, 1, 0) - f(0, -1, 0)); A[0][0] = f(1, 0, 0) + f(-1, 0, 0) - 2 * f(0, 0, 0); A[1][1] = f(0, 1, 0) + f(0, -1, 0) - 2 * f(0, 0, 0); A[0][1] = A[1][0] = 0.25 * (f(1, 1, 0) + f(-1, -1, 0) - f(-1, 1, 0) - f(1, -1, 0)); A[2][2] = 1;
    if (m.three) { g[2] = 0.5 * (f(0, 0, 1) - f(0, 0, -1)); A[2][2] = f(0, 0, 1) + f(0, 0, -1) - 2 * f(0, 0, 0); A[0][2] = A[2][0] = 0.25 * (f(1, 0, 1) + f(-1, 0, -1) - f(-1, 0, 1) - f(1, 0, -1)); A[1][2] = A[2][1] = 0.25 * (f(0, 1, 1) + f(0, -1, -1) - f(0, -1, 1) - f(0, 1, -1)); }
    if (!inv3(A, I)) { amb = true; break; } double in = 0; for (int i = 0; i < n; ++i) { b[i] = 0; for (int j = 0; j < n; ++j) { b[i] -= I[i][j] * g[j]; in = std::max(in, fabs(I[i][j])); } } if (in > 1e9) { amb = true; break; }
    double bm = std::max(fabs(b[0]), std::max(fabs(b[1]), fabs(b[2]))); err = 9 * in * 3e-7 * scale * (1 + bm) + 1e-12; if (err > 0.05) { amb = true; break; }
    int dx = 0, dy = 0; if (b[0] > 0.6 && cx < m.w - 2) dx = 1; if (b[0] < -0.6 && cx > 1) dx = -1; if (b[1] > 0.6 && cy < m.h - 2) dy = 1; if (b[1] < -0.6 && cy > 1) dy = -1; if (fabs(fabs(b[0]) - 0.6) < 2 * err || fabs(fabs(b[1]) - 0.6) < 2 * err) { amb = true; break; }
    if (!dx && !dy) break; if (it < 4) { cx += dx; cy += dy; }
  }
  r.err = err; r.aerr = 0; r.xi = cx; r.yi = cy; if (amb) { r.st = 1; r.x = r.y = NAN; return r; }
  double det = A[0][0] * A[1][1] - A[0][1] * A[0][1], tr = A[0][0] + A[1][1], al = tr * tr / det; r.x = cx + b[0]; r.y = cy + b[1]; r.z = z + b[2]; r.peak = m.f(cx, cy, z) + 0.5 * (g[0] * b[0] + g[1] * b[1] + (m.three ? g[2] * b[2] : 0)); double eA = 3e-7 * scale; r.perr = 1e-6 * scale + 4 * err * (fabs(g[0]) + fabs(g[1]) + fabs(g[2])) + 2 * eA * fabs(b[0] + b[1] + b[2]) + 1e-300; double eE = eA, eD = 4 * eE * (fabs(A[0][0]) + fabs(A[1][1]) + 2 * fabs(A[0][1]) + eA);
  // ratio of the larger to the smaller curvature: (1 + t)^2 / t = al
  r.edge = det > 0 ? (al >= 4 ? (al - 2 + sqrt(al * al - 4 * al)) / 2 : al / 2 - 1) : INFINITY; if (fabs(det) <= 4 * eD || fabs(tr) <= 10 * eA) r.edge = NAN; r.aerr = 1e-5 * al + al * (2 * eD / fabs(det) + 4 * eA / fabs(tr));
  auto need = [&](double margin, double e) { if (margin < -e) r.st = 0; else if (margin <= e && r.st == 2) r.st = 1; }; double e2 = 2 * err + 1e-6 * (m.w + m.h);   // positions are compared in single precision
  for (int i = 0; i < n; ++i) need(1.5 - fabs(b[i]), 2 * err + 1e-9); need(r.x, e2); need(r.y, e2); need(m.w - 1 - r.x, e2); need(m.h - 1 - r.y, e2); if (m.three) { need(r.z, e2); need(m.d - 1 - r.z, e2); } return r; }

VT_CHECK(refinement, 40000, 400000, "refinement accepted") {
  Map m; m.three = c.b(); m.w = (int)c.i(3, 12); m.h = (int)c.i(3, 12); m.d = m.three ? (int)c.i(3, 6) : 1; int kind = (int)c.i(0, 3); vt::Stream s = c.stream(); fvec a((size_t)m.w * m.h * m.d); int x = (int)c.i(1, m.w - 2), y = (int)c.i(1, m.h - 2), z = m.three ? (int)c.i(1, m.d - 2) : 0; double amp = c.pick({1.0, 1.0, 1e-3, 1e3});
  double q[6], p0[3] = {x + s.real(-2.2, 2.2), y + s.real(-2.2, 2.2), z + s.real(-1.6, 1.6)}; if (kind == 1) { p0[0] = x + s.real(-.5, .5); p0[1] = y + s.real(-.5, .5); p0[2] = z + s.real(-.5, .5); } double sg = s.below(2) ? 1 : -1; for (int i = 0; i < 3; ++i) q[i] = sg * s.real(0.3, 2); for (int i = 3; i < 6; ++i) q[i] = s.real(-0.25, 0.25);
  auto quad = [&](double X, double Y, double Z) { double u = X - p0[0], v = Y - p0[1], w = m.three ? Z - p0[2] : 0; return q[0] * u * u + q[1] * v * v + q[2] * w * w + q[3] * u * v + q[4] * u * w + q[5] * v * w; };
  for (int k = 0; k < m.d; ++k) for (int j = 0; j < m.h; ++j) for (int i = 0; i < m.w; ++i) { double v; if (kind == 0 || kind == 3) v = s.real(-1, 1); else v = 3 + quad(i, j, k) + (kind == 2 ? s.real(-.1, .1) : 0); a[i + (size_t)j * m.w + (size_t)k * m.w * m.h] = (float)(amp * v); } if (kind == 3) for (float &v : a) v = (float)(amp * (int)(v / amp * 3));
  m.f = [&](int X, int Y, int Z) { return (double)a[X + (size_t)Y * m.w + (size_t)Z * m.w * m.h]; }; c.note("%dx%dx%d %s from (%d,%d,%d) kind %d amplitude %g", m.w, m.h, m.d, m.three ? "volume" : "plane", x, y, z, kind, amp);
  Ref r = refine(m, x, y, z); VlCovDetExtremum3 g; memset(&g, 0, sizeof g); VlCovDetExtremum2 g2; memset(&g2, 0, sizeof g2); bool ok; if (m.three) ok = vl_refine_local_extreum_3(&g, a.data(), m.w, m.h, m.d, x, y, z); else { ok = vl_refine_local_extreum_2(&g2, a.data(), m.w, m.h, x, y); g.x = g2.x; g.y = g2.y; g.peakScore = g2.peakScore; g.edgeScore = g2.edgeScore; g.xi = g2.xi; g.yi = g2.yi; }
  if (r.st == 1) { c.label("undecided"); return; } VT_ASSERT(c, ok == (r.st == 2), "refinement reported as %s, expected %s (position %g %g %g)", ok ? "stable" : "unstable", r.st ? "stable" : "unstable", r.x, r.y, r.z); if (!ok) { c.label("unstable"); return; } c.nontrivial(); c.label("stable");
  double tol = 2e-6 * (m.w + m.h) + 2 * r.err; VT_ASSERT(c, g.xi == r.xi && g.yi == r.yi, "integer position (%d,%d), expected (%d,%d)", (int)g.xi, (int)g.yi, r.xi, r.yi); VT_ASSERT(c, fabs(g.x - r.x) <= tol && fabs(g.y - r.y) <= tol && (!m.three || fabs(g.z - r.z) <= tol), "refined to (%.8g,%.8g,%.8g), the quadratic fit has its critical point at (%.8g,%.8g,%.8g)", g.x, g.y, g.z, r.x, r.y, r.z); VT_ASSERT(c, fabs(g.peakScore - r.peak) <= r.perr, "peak value %.8g, expected %.8g", g.peakScore, r.peak);
  if (!std::isnan(r.edge)) { if (std::isinf(r.edge)) VT_ASSERT(c, std::isinf(g.edgeScore), "edge score %g at a saddle", g.edgeScore); else if (r.edge < 1e4) VT_ASSERT(c, g.edgeScore >= 0.9999 && fabs(emeasure(g.edgeScore) - emeasure(r.edge)) <= r.aerr, "edge score %.8g, ratio of curvatures %.8g", g.edgeScore, r.edge); }
  if (kind == 1) { VT_ASSERT(c, fabs(g.x - p0[0]) <= 1e-5 + tol && fabs(g.y - p0[1]) <= 1e-5 + tol, "extremum of an exact quadratic at (%.6g,%.6g), found (%.6g,%.6g)", p0[0], p0[1], g.x, g.y); c.label("exact quadratic"); } }

static Conf setup(vt::Ctx &c, fvec &im, int &cls, int lo, int hi) {
  Conf t; t.method = (int)c.i(1, 6); t.o0 = (int)c.pick({0, -1, 0, -1, 1, -2}); int top = t.o0 < -1 ? hi / 2 : t.o0 < 0 ? hi * 2 / 3 : hi; t.w = (int)c.i(lo, std::max(lo, top)); t.h = (int)c.i(lo, std::max(lo, top)); t.nOct = (int)c.pick({-1, -1, 1, 2, 3}); t.res = (int)c.pick({3, 3, 1, 2, 4, 5}); t.base = c.pick({1.6, 1.6, 1.2, 2.0}); double amp = c.pick({1.0, 1.0, 0.5, 255.0});
  bool harris = t.method == VL_COVDET_METHOD_HARRIS_LAPLACE || t.method == VL_COVDET_METHOD_MULTISCALE_HARRIS; double unit = t.method == VL_COVDET_METHOD_DOG ? amp : harris ? pow(amp, 4) * 1e-3 : amp * amp * 0.3; t.peak = unit * c.pick({0.0, 0.0, 1e-3, 1e-2, 0.05}); t.edge = c.pick({10.0, 10.0, 5.0, 2.0, 50.0}); t.lap = amp * c.pick({0.01, 0.0, 0.003, 0.05}); cls = genimg(c, im, t.w, t.h, amp); c.note("%s %dx%d %s amplitude %g, octaves from %d (%d), resolution %d, base %g, peak %g edge %g", mname(t.method), t.w, t.h, imclass(cls), amp, t.o0, t.nOct, t.res, t.base, t.peak, t.edge); return t; }
static CovPtr detector(const Conf &t) { CovPtr d(vl_covdet_new((VlCovDetMethod)t.method), vl_covdet_delete); apply(d.get(), t); return d; }
static std::vector<VlCovDetFeature> features(VlCovDet *d) { VlCovDetFeature *f = (VlCovDetFeature *)vl_covdet_get_features(d); return std::vector<VlCovDetFeature>(f, f + vl_covdet_get_num_features(d)); }

VT_CHECK(cornerness, 3000, 40000, "image that is not constant") {
  fvec im; int cls; Conf t = setup(c, im, cls, 2, 72); t.nes = 0; CovPtr d = detector(t); VT_ASSERT(c, vl_covdet_put_image(d.get(), im.data(), t.w, t.h) == VL_ERR_OK, "image refused"); VlScaleSpaceGeometry g = geometry(t), gg = vl_scalespace_get_geometry(vl_covdet_get_gss(d.get())); c.label("%s", mname(t.method)); if (cls != 6) c.nontrivial();
  VT_ASSERT(c, gg.firstOctave == g.firstOctave && gg.lastOctave == g.lastOctave, "octaves %d to %d, expected %d to %d", (int)gg.firstOctave, (int)gg.lastOctave, (int)g.firstOctave, (int)g.lastOctave); VT_ASSERT(c, gg.width == (vl_size)t.w && gg.height == (vl_size)t.h && gg.octaveResolution == g.octaveResolution && fabs(gg.baseScale - g.baseScale) < 1e-9, "size, resolution or base scale of the scale space wrong");
  VlScaleSpace *ref = vl_scalespace_new_with_geometry(gg); std::unique_ptr<VlScaleSpace, void (*)(VlScaleSpace *)> own(ref, vl_scalespace_delete); vl_scalespace_put_image(ref, im.data()); double mx = vmaxabs(im) + 1e-30;
  vl_covdet_detect(d.get()); VlScaleSpace *gss = vl_covdet_get_gss(d.get()), *css = vl_covdet_get_css(d.get()); VlScaleSpaceGeometry cg = vl_scalespace_get_geometry(css); int last = (int)gg.octaveLastSubdivision - (t.method == VL_COVDET_METHOD_DOG); VT_ASSERT(c, cg.octaveFirstSubdivision == gg.octaveFirstSubdivision && cg.octaveLastSubdivision == last && cg.firstOctave == gg.firstOctave && cg.lastOctave == gg.lastOctave, "subdivisions of the cornerness scale space %d..%d", (int)cg.octaveFirstSubdivision, (int)cg.octaveLastSubdivision);
  for (int o = (int)cg.firstOctave; o <= cg.lastOctave; ++o) for (int s = (int)cg.octaveFirstSubdivision; s <= last; ++s) {
    VlScaleSpaceOctaveGeometry q = vl_scalespace_get_octave_geometry(gss, o); int w = (int)q.width, h = (int)q.height; const float *L = vl_scalespace_get_level(gss, o, s), *C = vl_scalespace_get_level(css, o, s); VT_ASSERT(c, !memcmp(L, vl_scalespace_get_level(ref, o, s), sizeof(float) * w * h), "octave %d level %d is not the Gaussian scale space of the image", o, s); Level LL{L, w, h, q.step}; double r = levelSigma(g, o, s) / q.step, r4 = pow(r, 4);
    if (t.method == VL_COVDET_METHOD_DOG) { const float *N = vl_scalespace_get_level(gss, o, s + 1); for (int i = 0; i < w * h; ++i) VT_ASSERT(c, fabs(C[i] - ((double)L[i] - N[i])) <= 1e-6 * mx, "difference of Gaussians at octave %d level %d pixel %d: %g", o, s, i, C[i]); }
    else if (t.method == VL_COVDET_METHOD_HESSIAN || t.method == VL_COVDET_METHOD_HESSIAN_LAPLACE || t.method == VL_COVDET_METHOD_MULTISCALE_HESSIAN) { if (w < 3 || h < 3) continue; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int X = std::min(w - 2, std::max(1, x)), Y = std::min(h - 2, std::max(1, y)); double v = LL.at(X, Y), xx = LL.at(X + 1, Y) + LL.at(X - 1, Y) - 2 * v, yy = LL.at(X, Y + 1) + LL.at(X, Y - 1) - 2 * v, xy = 0.25 * (LL.at(X + 1, Y + 1) + LL.at(X - 1, Y - 1) - LL.at(X + 1, Y - 1) - LL.at(X - 1, Y + 1)), want = (xx * yy - xy * xy) * r4; VT_ASSERT(c, fabs(C[x + (size_t)y * w] - want) <= 4e-6 * mx * mx * r4, "Hessian determinant at octave %d level %d pixel (%d,%d) of %dx%d: %.8g, expected %.8g", o, s, x, y, w, h, C[x + (size_t)y * w], want); } }
    else { if (w < 2 || h < 2) continue; dvec a((size_t)w * h), b(a), e(a); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double dx = (x == 0 || x == w - 1 ? 1 : 0.5) * (LL.at(x + 1, y) - LL.at(x - 1, y)), dy = (y == 0 || y == h - 1 ? 1 : 0.5) * (LL.at(x, y + 1) - LL.at(x, y - 1)); size_t i = x + (size_t)y * w; a[i] = dx * dx; b[i] = dy * dy; e[i] = dx * dy; } double si = 1.4 * r; a = gsmooth(a, w, h, si, 3); b = gsmooth(b, w, h, si, 3); e = gsmooth(e, w, h, si, 3);
      for (int i = 0; i < w * h; ++i) { double want = r4 * (a[i] * b[i] - e[i] * e[i] - 0.05 * (a[i] + b[i]) * (a[i] + b[i])), S = a[i] + b[i]; VT_ASSERT(c, fabs(C[i] - want) <= r4 * (1e-4 * S * S + 1e-6 * mx * mx * S + 1e-12 * pow(mx, 4)), "Harris measure at octave %d level %d pixel (%d,%d) of %dx%d: %.8g, expected %.8g", o, s, i % w, i / w, w, h, C[i], want); } }
  } }

struct Cand { int st; double x, y, sigma, peak, edge, err, perr, aerr; };
static void reference(VlCovDet *d, const Conf &t, std::vector<Cand> &out) {
  VlScaleSpace *css = vl_covdet_get_css(d); VlScaleSpaceGeometry cg = vl_scalespace_get_geometry(css); bool three = t.method <= VL_COVDET_METHOD_HESSIAN;
  for (int o = (int)cg.firstOctave; o <= cg.lastOctave; ++o) {
    VlScaleSpaceOctaveGeometry q = vl_scalespace_get_octave_geometry(css, o); Map m; m.three = three; m.w = (int)q.width; m.h = (int)q.height; m.d = three ? (int)(cg.octaveLastSubdivision - cg.octaveFirstSubdivision + 1) : 1;
    for (int s = (int)cg.octaveFirstSubdivision; s <= (three ? cg.octaveFirstSubdivision : cg.octaveLastSubdivision); ++s) {
      std::vector<const float *> lv; for (int k = 0; k < m.d; ++k) lv.push_back(vl_scalespace_get_level(css, o, s + k)); m.f = [&](int x, int y, int z) { return (double)lv[z][x + (size_t)y * m.w]; };
      for (auto &p : extrema(m, 0.8 * t.peak)) { Ref r = refine(m, p[0], p[1], p[2]); if (!r.st) continue; Cand k; k.st = r.st; if (std::isnan(r.x)) { k.x = NAN; k.y = NAN; out.push_back(k); continue; }
        auto need = [&](double margin, double e) { if (!(margin >= -e)) k.st = 0; else if (margin <= e && k.st == 2) k.st = 1; }; need(fabs(r.peak) - t.peak, r.perr); if (std::isnan(r.edge)) { if (k.st == 2) k.st = 1; } else if (std::isinf(r.edge)) k.st = 0; else need(emeasure(t.edge) - emeasure(r.edge), r.aerr); if (!k.st) continue;
        k.x = r.x * q.step; k.y = r.y * q.step; k.sigma = levelSigma(vl_scalespace_get_geometry(css), o, three ? r.z + cg.octaveFirstSubdivision : s); k.peak = r.peak; k.edge = r.edge; k.err = 1e-5 * (1 + fabs(r.x) + fabs(r.y)) + 2 * r.err * q.step; k.perr = r.perr + 1e-6 * fabs(r.peak); k.aerr = r.aerr; out.push_back(k); } } } }
static bool same(const Cand &k, const VlCovDetFeature &f, const Conf &t) { const VlFrameOrientedEllipse &e = f.frame; return std::isnan(k.x) || (fabs(e.x - k.x) <= k.err && fabs(e.y - k.y) <= k.err && fabs(e.a11 - k.sigma) <= (1e-5 + k.err) * k.sigma && e.a12 == 0 && e.a21 == 0 && e.a22 == e.a11 && fabs(f.peakScore - k.peak) <= k.perr && (std::isnan(k.edge) || fabs(emeasure(f.edgeScore) - emeasure(k.edge)) <= k.aerr)); }
static std::string nearest(const std::vector<Cand> &ks, const std::vector<char> &used, const VlCovDetFeature &f) { double b = 1e300; std::string r; for (size_t i = 0; i < ks.size(); ++i) if (!used[i]) { const Cand &k = ks[i]; double e = fabs(k.x - f.frame.x) + fabs(k.y - f.frame.y) + fabs(k.sigma - f.frame.a11); if (e < b) { char t[200]; b = e; snprintf(t, sizeof t, "; nearest (%.7g,%.7g) sigma %.7g peak %.7g edge %.7g state %d", k.x, k.y, k.sigma, k.peak, k.edge, k.st); r = t; } } return r; }
VT_CHECK(extrema_detected, 5000, 60000, "at least one feature certainly expected") {
  fvec im; int cls; Conf t = setup(c, im, cls, 3, 80); t.nes = 0; if (t.method == VL_COVDET_METHOD_HARRIS_LAPLACE) t.method = VL_COVDET_METHOD_MULTISCALE_HARRIS; if (t.method == VL_COVDET_METHOD_HESSIAN_LAPLACE) t.method = VL_COVDET_METHOD_MULTISCALE_HESSIAN; CovPtr d = detector(t); vl_covdet_put_image(d.get(), im.data(), t.w, t.h); vl_covdet_detect(d.get()); auto fs = features(d.get()); std::vector<Cand> ks; reference(d.get(), t, ks); std::vector<char> used(ks.size(), 0); int sure = 0, wild = 0; for (auto &k : ks) { sure += k.st == 2; wild += std::isnan(k.x); } if (sure) c.nontrivial(); c.label("%s %s", mname(t.method), sure ? "with features" : "without features");
  VT_ASSERT(c, vl_covdet_get_num_non_extrema_suppressed(d.get()) == 0, "%d features suppressed while suppression is off", (int)vl_covdet_get_num_non_extrema_suppressed(d.get()));
  for (auto &f : fs) { bool hit = false; for (size_t i = 0; i < ks.size() && !hit; ++i) if (!used[i] && !std::isnan(ks[i].x) && same(ks[i], f, t)) { used[i] = 1; hit = true; } if (!hit && wild-- > 0) hit = true; VT_ASSERT(c, hit, "feature at (%.6g,%.6g) sigma %.6g/%g/%g/%g peak %g edge %g is not an extremum passing the thresholds (%d features, %d expected%s)", f.frame.x, f.frame.y, f.frame.a11, f.frame.a12, f.frame.a21, f.frame.a22, f.peakScore, f.edgeScore, (int)fs.size(), sure, nearest(ks, used, f).c_str()); VT_ASSERT(c, f.orientationScore == 0 && f.laplacianScaleScore == 0, "orientation or scale score without estimation"); }
  for (size_t i = 0; i < ks.size(); ++i) VT_ASSERT(c, ks[i].st < 2 || used[i], "extremum at (%.6g,%.6g) sigma %.6g peak %g edge %g not detected (%d features, %d expected)", ks[i].x, ks[i].y, ks[i].sigma, ks[i].peak, ks[i].edge, (int)fs.size(), sure); }

// Laplacian scale selection: 10 filters over one octave around the nominal scale
static const std::vector<dvec> &filters() { static std::vector<dvec> F; if (F.empty()) for (int k = 0; k < 10; ++k) { dvec p(33 * 33, 0.0); p[16 * 33 + 16] = -4; p[16 * 33 + 15] = p[16 * 33 + 17] = p[15 * 33 + 16] = p[17 * 33 + 16] = 1; double sl2 = pow(4.0, -0.5 + k / 9.0) - 0.5; F.push_back(sl2 > 1e-9 ? gsmooth(p, 33, 33, sqrt(sl2) / (0.5 * sqrt(0.5)), 3) : p); } return F; }
struct LS { int st; double scale, score; };
static std::vector<LS> laplace(VlCovDet *d, const Conf &t, const VlFrameOrientedEllipse &f, double mx, bool &out) {
  double A[4] = {f.a11, f.a21, f.a12, f.a22}, big, sm; sv2(A, big, sm); int o, s; bool amb = false; VlScaleSpaceGeometry g = vl_scalespace_get_geometry(vl_covdet_get_gss(d)); pickLevel(g, sqrt(0.5), sm, o, s, amb); std::vector<LS> r; out = false; if (amb) { r.push_back({1, NAN, 0}); return r; } Level L = level(d, o, s); double ext = 0.5 * sqrt(0.5) * 16; dvec p = warp(L, A, f.x, f.y, 16, ext), sc(10); double s2 = pow(levelSigma(g, o, s), 2) / (big * sm);
  auto lap2 = [&](double k) { return pow(4.0, -0.5 + k / 9.0) - 0.5 + s2; }; for (int k = 0; k < 10; ++k) { double v = 0; const dvec &F = filters()[k]; for (int i = 0; i < 33 * 33; ++i) v += F[i] * p[i]; sc[k] = v * lap2(k); }
  for (int k = 1; k < 9; ++k) { double a = sc[k - 1], b = sc[k], e = sc[k + 1], eps = 1e-5 * mx; int st = 2; double d1 = b - a, d2 = b - e; if (fabs(d1) < eps || fabs(d2) < eps) { bool pos = d1 * d2 > 0; st = 1; if (!pos && fabs(d1) >= eps && fabs(d2) >= eps) st = 0; } else if (d1 * d2 < 0) st = 0; if (!st) continue; if (fabs(b) < t.lap - eps) continue; if (fabs(b) <= t.lap + eps) st = 1; double dk = -0.5 * (e - a) / (e + a - 2 * b), e2 = fabs(e + a - 2 * b); if (e2 < 200 * eps) st = 1; r.push_back({st, st == 2 ? sqrt(lap2(k + dk)) : NAN, b + 0.5 * (e - a) * dk}); } return r; }
VT_CHECK(laplacian_scales, 1500, 30000, "at least one scale selected") {
  fvec im; int cls; Conf t = setup(c, im, cls, 8, 72); t.nes = 0; bool harris = c.b(); t.method = harris ? VL_COVDET_METHOD_HARRIS_LAPLACE : VL_COVDET_METHOD_HESSIAN_LAPLACE; CovPtr d = detector(t); Conf t2 = t; t2.method = harris ? VL_COVDET_METHOD_MULTISCALE_HARRIS : VL_COVDET_METHOD_MULTISCALE_HESSIAN; CovPtr e = detector(t2); double mx = vmaxabs(im);
  vl_covdet_put_image(d.get(), im.data(), t.w, t.h); vl_covdet_detect(d.get()); vl_covdet_put_image(e.get(), im.data(), t.w, t.h); vl_covdet_detect(e.get()); auto fs = features(d.get()), ms = features(e.get()); std::vector<char> used(fs.size(), 0); bool amb = false; size_t stat[5] = {0}; if (ms.size() > 400) c.label("many");
  std::vector<std::pair<VlCovDetFeature, LS>> want; for (auto &m : ms) { bool out; auto r = laplace(e.get(), t, m.frame, mx, out); size_t n = 0; for (auto &l : r) { if (l.st == 1) amb = true; want.push_back({m, l}); ++n; } stat[std::min<size_t>(n, 4)]++; }
  int sure = 0; for (auto &p : want) { sure += p.second.st == 2; bool hit = false; for (size_t i = 0; i < fs.size() && !hit; ++i) { const VlFrameOrientedEllipse &f = fs[i].frame; if (used[i] || f.x != p.first.frame.x || f.y != p.first.frame.y || fs[i].peakScore != p.first.peakScore) continue; if (p.second.st == 2) { double sg = p.first.frame.a11 * p.second.scale; hit = fabs(f.a11 - sg) <= 2e-2 * sg * (1) && fabs(fs[i].laplacianScaleScore - p.second.score) <= 1e-4 * mx + 1e-3 * fabs(p.second.score) && f.a22 == f.a11 && f.a12 == 0 && f.a21 == 0; } else hit = true; if (hit) used[i] = 1; } VT_ASSERT(c, hit || p.second.st < 2 || amb, "feature (%g,%g) sigma %g has a Laplacian extremum at relative scale %g score %g that is not reported (%d features)", p.first.frame.x, p.first.frame.y, p.first.frame.a11, p.second.scale, p.second.score, (int)fs.size()); }
  if (sure) c.nontrivial(); c.label("%s, %s", harris ? "Harris" : "Hessian", sure ? "scales" : "no scales"); if (!amb) for (size_t i = 0; i < fs.size(); ++i) VT_ASSERT(c, used[i], "feature (%g,%g) sigma %g is not at a Laplacian extremum above the threshold", fs[i].frame.x, fs[i].frame.y, fs[i].frame.a11);
  vl_size ns; const vl_size *st = vl_covdet_get_laplacian_scales_statistics(d.get(), &ns); VT_ASSERT(c, ns == 4, "scale statistics have %d entries", (int)ns); if (!amb) for (int i = 0; i <= 4; ++i) VT_ASSERT(c, st[i] == stat[i], "statistics report %d features with %d scales, %d expected", (int)st[i], i, (int)stat[i]); }

VT_CHECK(suppression, 3000, 50000, "at least one feature suppressed") {
  fvec im; int cls; Conf t = setup(c, im, cls, 8, 72); t.nes = 0; double tol = c.pick({0.5, 0.5, 0.1, 1.0, 0.9}); CovPtr d = detector(t); vl_covdet_put_image(d.get(), im.data(), t.w, t.h); vl_covdet_detect(d.get()); auto all = features(d.get()); size_t n = all.size(); vl_covdet_set_non_extrema_suppression_threshold(d.get(), tol); vl_covdet_detect(d.get()); auto got = features(d.get()); std::vector<char> dead(n, 0);
  if (n > 3000) { c.discard(); return; } auto over = [&](const VlCovDetFeature &a, const VlCovDetFeature &b) { double s = a.frame.a11, s2 = b.frame.a11; return s < (1 + tol) * s2 && s2 < (1 + tol) * s && fabs((double)b.frame.x - a.frame.x) < tol * s && fabs((double)b.frame.y - a.frame.y) < tol * s && fabs(a.peakScore) > fabs(b.peakScore); };
  size_t cnt = 0; for (size_t i = 0; i < n; ++i) if (!dead[i]) for (size_t j = 0; j < n; ++j) if (!dead[j] && over(all[i], all[j])) { dead[j] = 1; ++cnt; } std::vector<VlCovDetFeature> want; for (size_t i = 0; i < n; ++i) if (!dead[i]) want.push_back(all[i]); if (cnt) c.nontrivial(); c.label("%s", cnt ? "suppressed" : "nothing to suppress");
  VT_ASSERT(c, got.size() == want.size(), "%d of %d features left by suppression with %g, expected %d", (int)got.size(), (int)n, tol, (int)want.size()); auto key = [](const VlCovDetFeature &f) { return std::array<float, 4>{f.frame.x, f.frame.y, f.frame.a11, f.peakScore}; }; std::multiset<std::array<float, 4>> A, B; for (auto &f : got) A.insert(key(f)); for (auto &f : want) B.insert(key(f)); VT_ASSERT(c, A == B, "the features kept are not the dominant ones"); VT_ASSERT(c, vl_covdet_get_num_non_extrema_suppressed(d.get()) == cnt, "%d suppressed reported, %d expected", (int)vl_covdet_get_num_non_extrema_suppressed(d.get()), (int)cnt);
  for (auto &a : got) for (auto &b : got) VT_ASSERT(c, !over(a, b), "two overlapping features kept"); }

VT_CHECK(drop_outside, 20000, 200000, "some frames kept and some dropped") {
  int w = (int)c.i(16, 60), h = (int)c.i(16, 60); fvec im((size_t)w * h, 0.f); VlCovDet *d = vl_covdet_new(VL_COVDET_METHOD_DOG); CovPtr own(d, vl_covdet_delete); vl_covdet_set_first_octave(d, 0); vl_covdet_put_image(d, im.data(), w, h); double margin = c.pick({1.0, 0.0, 2.0, 0.5, 3.0}); int n = (int)c.small(1, 30), kept = 0; vt::Stream s = c.stream(); c.note("%dx%d margin %g, %d frames", w, h, margin, n); std::vector<VlCovDetFeature> in; std::vector<int> st;
  for (int i = 0; i < n; ++i) { VlCovDetFeature f; memset(&f, 0, sizeof f); f.frame.x = (float)s.real(-5, w + 4); f.frame.y = (float)s.real(-5, h + 4); if (s.below(4) == 0) { f.frame.x = (float)s.below(w); f.frame.y = (float)s.below(h); } double a = s.real(0, 6.3), p = s.real(0.2, 6), q = s.below(2) ? p : s.real(0.2, 6), b = s.real(0, 6.3); if (s.below(4) == 0) { a = b = 0; p = q = 1 + (double)s.below(5); } double ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b); f.frame.a11 = (float)(ca * p * cb - sa * q * sb); f.frame.a12 = (float)(-ca * p * sb - sa * q * cb); f.frame.a21 = (float)(sa * p * cb + ca * q * sb); f.frame.a22 = (float)(-sa * p * sb + ca * q * cb); f.peakScore = 1 + i; in.push_back(f); vl_covdet_append_feature(d, &f);
    double ex = margin * (fabs((double)f.frame.a11) + fabs((double)f.frame.a12)), ey = margin * (fabs((double)f.frame.a21) + fabs((double)f.frame.a22)), mn = std::min(std::min(f.frame.x - ex, w - 1 - f.frame.x - ex), std::min(f.frame.y - ey, h - 1 - f.frame.y - ey)); int v = mn > 1e-9 ? 2 : mn < -1e-9 ? 0 : 1; st.push_back(v); kept += v == 2; }
  VT_ASSERT(c, (int)vl_covdet_get_num_features(d) == n, "%d features after appending %d", (int)vl_covdet_get_num_features(d), n); vl_covdet_drop_features_outside(d, margin); auto got = features(d); size_t k = 0; int amb = 0; for (int i = 0; i < n; ++i) { bool here = k < got.size() && got[k].peakScore == in[i].peakScore; if (here) VT_ASSERT(c, !memcmp(&got[k], &in[i], sizeof in[i]), "feature changed"); if (st[i] == 2) VT_ASSERT(c, here, "frame %d at (%g,%g) is inside but was dropped", i, in[i].frame.x, in[i].frame.y); if (st[i] == 0) VT_ASSERT(c, !here, "frame %d at (%g,%g) leaves the image but was kept", i, in[i].frame.x, in[i].frame.y); if (here) ++k; amb += st[i] == 1; } VT_ASSERT(c, k == got.size(), "order or number of the frames changed"); if (kept && kept < n) c.nontrivial(); }

// one detector used over a random history behaves like a new one
static bool eqf(const std::vector<VlCovDetFeature> &a, const std::vector<VlCovDetFeature> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), sizeof(VlCovDetFeature) * a.size())); }
VT_CHECK(history, 800, 20000, "features compared after an earlier detection or reset") {
  Conf t; t.method = (int)c.i(1, 6); VlCovDet *d = vl_covdet_new((VlCovDetMethod)t.method); CovPtr own(d, vl_covdet_delete); int n = (int)c.i(3, 14), det = 0; bool image = false, harris = t.method == VL_COVDET_METHOD_HARRIS_LAPLACE || t.method == VL_COVDET_METHOD_MULTISCALE_HARRIS; fvec im; c.note("%s", mname(t.method));
  t.peak = t.method == VL_COVDET_METHOD_DOG ? 0.01 : harris ? 0.000002 : 0.003; t.lap = t.method == VL_COVDET_METHOD_DOG ? 0 : 0.01;
  VT_ASSERT(c, vl_covdet_get_first_octave(d) == -1 && vl_covdet_get_octave_resolution(d) == 3 && vl_covdet_get_base_scale(d) == 1.6 && vl_covdet_get_peak_threshold(d) == t.peak && vl_covdet_get_edge_threshold(d) == 10 && vl_covdet_get_laplacian_peak_threshold(d) == t.lap && vl_covdet_get_non_extrema_suppression_threshold(d) == 0.5 && vl_covdet_get_max_num_orientations(d) == 4 && !vl_covdet_get_transposed(d) && vl_covdet_get_allow_padded_warping(d) && !vl_covdet_get_aa_accurate_smoothing(d) && vl_covdet_get_num_features(d) == 0, "defaults wrong");
  bool post = false; auto put = [&] { t.w = (int)c.i(16, 48); t.h = (int)c.i(16, 48); int cls = genimg(c, im, t.w, t.h, 1.0, (int)c.pick({0, 1, 1, 4, 7})); c.note("put %dx%d %s", t.w, t.h, imclass(cls)); vl_covdet_put_image(d, im.data(), t.w, t.h); image = true; };
  for (int k = 0; k < n; ++k) switch (c.i(0, 13)) {
    case 0: t.o0 = (int)c.pick({0, -1, 1}); vl_covdet_set_first_octave(d, t.o0); VT_ASSERT(c, vl_covdet_get_first_octave(d) == t.o0, "first octave"); c.note("first octave %d", t.o0); image = false; goto reset;
    case 1: t.nOct = (int)c.i(1, 3); vl_covdet_set_num_octaves(d, t.nOct); VT_ASSERT(c, vl_covdet_get_num_octaves(d) == (vl_size)t.nOct, "octaves"); c.note("%d octaves", t.nOct); image = false; goto reset;
    case 2: t.res = (int)c.i(1, 4); vl_covdet_set_octave_resolution(d, t.res); VT_ASSERT(c, vl_covdet_get_octave_resolution(d) == (vl_size)t.res, "resolution"); c.note("resolution %d", t.res); image = false; goto reset;
    case 3: t.base = c.pick({1.6, 1.2, 2.0}); vl_covdet_set_base_scale(d, t.base); VT_ASSERT(c, vl_covdet_get_base_scale(d) == t.base, "base"); c.note("base %g", t.base); image = false; goto reset;
    case 4: vl_covdet_reset(d); c.note("reset"); image = false; reset: VT_ASSERT(c, vl_covdet_get_num_features(d) == 0, "%d features left after a reset", (int)vl_covdet_get_num_features(d)); VT_ASSERT(c, !vl_covdet_get_gss(d) && !vl_covdet_get_css(d), "scale spaces left after a reset"); post = true; break;
    case 5: t.peak *= c.pick({0.5, 0.1, 2.0}); vl_covdet_set_peak_threshold(d, t.peak); t.edge = c.pick({10.0, 4.0, 30.0}); vl_covdet_set_edge_threshold(d, t.edge); t.lap = c.pick({0.01, 0.0, 0.03}); vl_covdet_set_laplacian_peak_threshold(d, t.lap); VT_ASSERT(c, vl_covdet_get_peak_threshold(d) == t.peak && vl_covdet_get_edge_threshold(d) == t.edge && vl_covdet_get_laplacian_peak_threshold(d) == t.lap, "thresholds not stored"); c.note("thresholds"); break;
    case 6: t.nes = c.pick({0.0, 0.5, 1.0}); vl_covdet_set_non_extrema_suppression_threshold(d, t.nes); VT_ASSERT(c, vl_covdet_get_non_extrema_suppression_threshold(d) == t.nes, "suppression threshold"); break;
    case 7: case 8: put(); break;
    default: {
      if (!image) put(); vl_covdet_detect(d); c.note("detect"); Conf u = t; CovPtr e = detector(u); vl_covdet_put_image(e.get(), im.data(), t.w, t.h); vl_covdet_detect(e.get()); auto a = features(d), b = features(e.get()); if (a.size() && (det || post)) c.nontrivial(); ++det; VT_ASSERT(c, eqf(a, b), "%d features, a new detector with the same settings finds %d (or they differ)", (int)a.size(), (int)b.size()); VT_ASSERT(c, vl_covdet_get_num_non_extrema_suppressed(d) == vl_covdet_get_num_non_extrema_suppressed(e.get()), "%d suppressed reported, a new detector reports %d", (int)vl_covdet_get_num_non_extrema_suppressed(d), (int)vl_covdet_get_num_non_extrema_suppressed(e.get()));
      int what = (int)c.i(0, 4); if (what == 0) { vl_covdet_extract_orientations(d); vl_covdet_extract_orientations(e.get()); } else if (what == 1) { vl_covdet_extract_affine_shape(d); vl_covdet_extract_affine_shape(e.get()); } else if (what == 2) { vl_covdet_extract_laplacian_scales(d); vl_covdet_extract_laplacian_scales(e.get()); } else if (what == 3) { vl_covdet_drop_features_outside(d, 2); vl_covdet_drop_features_outside(e.get(), 2); } c.note("step %d", what); a = features(d); b = features(e.get()); VT_ASSERT(c, eqf(a, b), "after step %d: %d features, a new detector has %d (or they differ)", what, (int)a.size(), (int)b.size()); if (what == 4) { VlCovDetFeature f; memset(&f, 0, sizeof f); f.frame.x = 3; vl_covdet_append_feature(d, &f); auto z = features(d); VT_ASSERT(c, z.size() == a.size() + 1 && z.back().frame.x == 3, "feature not appended"); z.pop_back(); VT_ASSERT(c, eqf(z, a), "appending changed other features"); } break; } } }
int main(int a, char **b) { return vt::vt_main(a, b); }
