// F06: patches, orientations and affine shape of covariant frames.
#include "covdet.h"
static dvec smooth2(const dvec &in, int w, int h, double sx, double sy) { dvec o = in; auto ker = [](double s) { int W = std::max((int)ceil(3 * s), 0); dvec k(2 * W + 1); double a = 0; for (int j = -W; j <= W; ++j) a += k[j + W] = j ? exp(-0.5 * (j / s) * (j / s)) : 1; for (double &v : k) v /= a; return k; };
  dvec kx = ker(sx), ky = ker(sy), t(in.size()); int X = (int)kx.size() / 2, Y = (int)ky.size() / 2; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double v = 0; for (int j = -X; j <= X; ++j) v += kx[j + X] * in[std::min(w - 1, std::max(0, x + j)) + (size_t)y * w]; t[x + (size_t)y * w] = v; } for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double v = 0; for (int j = -Y; j <= Y; ++j) v += ky[j + Y] * t[x + (size_t)std::min(h - 1, std::max(0, y + j)) * w]; o[x + (size_t)y * w] = v; } return o; }
static Conf setup(vt::Ctx &c, int lo, int hi) { Conf t; t.method = (int)c.i(1, 6); t.o0 = (int)c.pick({0, -1, 0, -1, 1}); t.w = (int)c.i(lo, hi); t.h = (int)c.i(lo, hi); t.nOct = (int)c.pick({-1, -1, 1, 2}); t.res = (int)c.pick({3, 3, 1, 2, 5}); t.base = c.pick({1.6, 1.6, 1.2}); t.transposed = c.b(); t.padded = c.chance(3, 4); t.accurate = c.chance(1, 3); t.maxOr = (int)c.pick({4, 4, 1, 2, 3}); return t; }
// frame with axes p >= q > 0, column major linear part
static VlFrameOrientedEllipse frame(double x, double y, double p, double q, double a, double b, bool mirror) { VlFrameOrientedEllipse f; double ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b), m = mirror ? -1 : 1; f.x = (float)x; f.y = (float)y; f.a11 = (float)(ca * p * cb - m * sa * q * sb); f.a12 = (float)(-ca * p * sb - m * sa * q * cb); f.a21 = (float)(sa * p * cb + m * ca * q * sb); f.a22 = (float)(-sa * p * sb + m * ca * q * cb); return f; }
static VlFrameOrientedEllipse genframe(vt::Ctx &c, const Conf &t, double smax, bool mirror) { vt::Stream s = c.stream(); int where = (int)c.pick({0, 0, 0, 1, 2}); double x = s.real(0, t.w - 1), y = s.real(0, t.h - 1), p = exp(s.real(log(0.5), log(smax))), q = s.below(3) == 0 ? p : p * exp(s.real(-1.3, 0)); if (where == 1) { if (s.below(2)) x = s.below(2) ? s.real(-8, 1) : s.real(t.w - 2, t.w + 8); else y = s.below(2) ? s.real(-8, 1) : s.real(t.h - 2, t.h + 8); } if (where == 2) { x = s.real(-3.0 * t.w, 4.0 * t.w); y = s.real(-3.0 * t.h, 4.0 * t.h); }
  double a = s.real(0, 6.3), b = s.real(0, 6.3); if (s.below(4) == 0) { a = b = 0; p = q = (double)(1 + s.below(4)); x = floor(x); y = floor(y); } VlFrameOrientedEllipse f = frame(x, y, p, q, a, b, mirror && s.below(3) == 0); c.note("frame (%g,%g) [%g %g; %g %g]", f.x, f.y, f.a11, f.a12, f.a21, f.a22); return f; }
static CovPtr detector(const Conf &t) { CovPtr d(vl_covdet_new((VlCovDetMethod)t.method), vl_covdet_delete); apply(d.get(), t); return d; }
static void lin(const VlFrameOrientedEllipse &f, double A[4]) { A[0] = f.a11; A[1] = f.a21; A[2] = f.a12; A[3] = f.a22; }
// 1 the box of the patch is in the level, 0 it is not, -1 too close to tell
static int inside(const Level &L, const double A[4], double x, double y, double e) { double ex = e * (fabs(A[0]) + fabs(A[2])), ey = e * (fabs(A[1]) + fabs(A[3])), m = std::min(std::min(x - ex, y - ey), std::min((L.w - 1) * L.step - x - ex, (L.h - 1) * L.step - y - ey)); return fabs(m) < 1e-6 * (1 + fabs(x) + fabs(y) + ex + ey) ? -1 : m > 0; }

VT_CHECK(patch, 20000, 200000, "patch that is not constant") {
  Conf t = setup(c, 4, 48); fvec im; int cls = genimg(c, im, t.w, t.h, 1.0); c.note("%dx%d %s octaves from %d resolution %d %s", t.w, t.h, imclass(cls), t.o0, t.res, t.padded ? "" : "no padding"); CovPtr d = detector(t); vl_covdet_put_image(d.get(), im.data(), t.w, t.h); int n = (int)c.small(1, 4);
  for (int k = 0; k < n; ++k) { VlFrameOrientedEllipse f = genframe(c, t, 20, true); int R = (int)c.pick({5, 1, 2, 3, 8, 15}); double ext = c.pick({3.0, 1.0, 6.0, 0.5, 10.0}), sigma = c.pick({1.0, 0.7, 1.2, 0.1, 3.0}); double A[4], big, sm; lin(f, A); sv2(A, big, sm); if (big / sm > 1e3) continue; int o, s; bool amb = false; VlScaleSpaceGeometry g = geometry(t); pickLevel(g, sigma, sm, o, s, amb); if (amb) { c.label("level undecided"); continue; } Level L = level(d.get(), o, s); int in = inside(L, A, f.x, f.y, ext), N = (2 * R + 1) * (2 * R + 1); fvec p(N + 2, -77.f);
    int e = vl_covdet_extract_patch_for_frame(d.get(), p.data() + 1, R, ext, sigma, f); VT_ASSERT(c, p[0] == -77.f && p[N + 1] == -77.f, "wrote outside of the patch");
    if (!t.padded && in < 0) continue; if (!t.padded && !in) { VT_ASSERT(c, e != VL_ERR_OK, "patch outside of the image accepted although padding is off"); c.label("refused"); continue; } VT_ASSERT(c, e == VL_ERR_OK, "patch refused with code %d", e);
    dvec w = warp(L, A, f.x, f.y, R, ext); double mn = 1e9, mx = -1e9; for (int i = 0; i < N; ++i) { mn = std::min(mn, w[i]); mx = std::max(mx, w[i]); VT_ASSERT(c, fabs(w[i] - p[i + 1]) <= 2e-5 + 1e-7 * (fabs(f.x) + fabs(f.y)) / L.step, "R %d extent %g sigma %g: patch pixel (%d,%d) is %.7g, the warped image has %.7g (octave %d level %d)", R, ext, sigma, i % (2 * R + 1), i / (2 * R + 1), p[i + 1], w[i], o, s); } c.label("%s", in ? "inside" : "padded"); if (mx - mn > 0.01) c.nontrivial(); } }

// the smoothing of the level never exceeds the request, unless no level is fine enough; it is the image smoothed and warped
VT_CHECK(analytic_patch, 4000, 40000, "blob visible in the patch") {
  Conf t = setup(c, 48, 80); t.padded = true; t.method = 1; t.o0 = -1; t.res = 3; t.base = 1.6; t.nOct = -1; vt::Stream s = c.stream(); double p = exp(s.real(log(2.0), log(5.0))), q = p * exp(s.real(-0.7, 0)); double a = s.real(0, 3.14), bx = t.w / 2.0 + s.real(-6, 6), by = t.h / 2.0 + s.real(-6, 6), sb = s.real(4, 8), r = s.real(0.5, 1), ba = s.real(0, 3.14); double ca = cos(ba), sa = sin(ba), C[3] = {ca * ca * sb * sb + sa * sa * sb * sb * r * r, ca * sa * sb * sb * (1 - r * r), sa * sa * sb * sb + ca * ca * sb * sb * r * r};
  // image: Gaussian of covariance C, which already includes the camera blur
  auto gauss = [&](double X, double Y, double ex) { double u = X - bx, v = Y - by, c0 = C[0] + ex, c2 = C[2] + ex, det = c0 * c2 - C[1] * C[1], D = C[0] * C[2] - C[1] * C[1]; return sqrt(D / det) * exp(-0.5 * (c2 * u * u - 2 * C[1] * u * v + c0 * v * v) / det); };
  fvec im((size_t)t.w * t.h); for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) im[x + (size_t)y * t.w] = (float)gauss(x, y, 0); VlFrameOrientedEllipse f = frame(bx + s.real(-3, 3), by + s.real(-3, 3), p, q, a, s.real(0, 6.3), false); CovPtr d = detector(t); vl_covdet_put_image(d.get(), im.data(), t.w, t.h); double sigma = c.pick({1.0, 0.7, 1.2}), ext = 1.5; int R = 6; fvec o(13 * 13); VT_ASSERT(c, vl_covdet_extract_patch_for_frame(d.get(), o.data(), R, ext, sigma, f) == VL_ERR_OK, "refused"); c.note("%dx%d blob (%g,%g) %g/%g frame (%g,%g) %g/%g", t.w, t.h, bx, by, sb, sb * r, f.x, f.y, p, q); double A[4]; lin(f, A); c.nontrivial();
  // requested smoothing sigma q in the image along the small axis, at least half an octave less may be used
  double want = sigma * q, lo = std::max(0.8, want / 2.3); if (want < 1.3) { c.label("finest level"); want = 1.7; lo = 0.7; } if (want > 10) return; 
  for (int j = 0; j < 13; ++j) for (int i = 0; i < 13; ++i) { double u = (i - 6) * ext / 6, v = (j - 6) * ext / 6, X = A[0] * u + A[2] * v + f.x, Y = A[1] * u + A[3] * v + f.y, g0 = 1e9, g1 = -1e9; for (int k = 0; k <= 8; ++k) { double sg = lo + (want * 1.02 - lo) * k / 8, g = gauss(X, Y, sg * sg - 0.25); g0 = std::min(g0, g); g1 = std::max(g1, g); } double got = o[i + 13 * j]; VT_ASSERT(c, got >= g0 - 0.03 && got <= g1 + 0.03, "patch pixel (%d,%d) is %g, the blob smoothed by %.3g to %.3g has %g to %g there", i, j, got, lo, want, g0, g1); } }

// orientation histogram of a 41x41 patch
struct Or { std::vector<std::pair<double, double>> pk; bool amb; bool none; };   // (score, angle), best first
static const int Q = 41;
static dvec orpatch(const dvec &p, double s1, double s2, double sd) { double st = 9.0 / 20; return smooth2(p, Q, Q, sqrt(std::max(sd * sd - s1 * s1, 0.0)) / st, sqrt(std::max(sd * sd - s2 * s2, 0.0)) / st); }
static void grad(const dvec &p, dvec &gx, dvec &gy) { gx.resize(p.size()); gy.resize(p.size()); for (int y = 0; y < Q; ++y) for (int x = 0; x < Q; ++x) { int a = std::max(0, x - 1), b = std::min(Q - 1, x + 1), e = std::max(0, y - 1), f = std::min(Q - 1, y + 1); gx[x + Q * y] = (p[b + Q * y] - p[a + Q * y]) / (b - a); gy[x + Q * y] = (p[x + Q * f] - p[x + Q * e]) / (f - e); } }
static double mask(int i) { double st = 18.0 / 41 / 3, dx = (i % Q - 20) * st, dy = (i / Q - 20) * st; return exp(-0.5 * (dx * dx + dy * dy)); }
static Or orient(const dvec &p, double theta0, bool transposed, double mx0) {   // moduli below 1e-4 are read as zero by the fast square root
  dvec gx, gy, h(36, 0.0), t(36); grad(p, gx, gy); double tot = 0; for (int i = 0; i < Q * Q; ++i) { double m = hypot(gx[i], gy[i]), x = fmod(vl_fast_atan2_f((float)gy[i], (float)gx[i]) / (2 * M_PI) + 1, 1.0) * 36; m = m * mx0 < 1e-4 ? 0 : m * mask(i); int b = (int)floor(x); double w = x - b; h[b % 36] += m * (1 - w); h[(b + 1) % 36] += m * w; tot += m; } for (int k = 0; k < 6; ++k) { for (int i = 0; i < 36; ++i) t[i] = (h[i] + h[(i + 1) % 36] + h[(i + 35) % 36]) / 3; h = t; }
  Or r; r.amb = false; double mx = *std::max_element(h.begin(), h.end()), eps = 5e-4 * mx + 1e-4; r.none = tot < 1e-7; if (mx < 5e-2) r.amb = true; for (int i = 0; i < 36; ++i) { double a = h[(i + 35) % 36], b = h[i], e = h[(i + 1) % 36]; if (b < 0.8 * mx - eps || b < a - eps || b < e - eps) continue; if (b < 0.8 * mx + eps || b < a + eps || b < e + eps) { r.amb = true; continue; } double di = -0.5 * (e - a) / (e + a - 2 * b); r.pk.push_back({b, (i + di) * M_PI / 18 + theta0 - (transposed ? M_PI / 2 : 0)}); if (fabs(e + a - 2 * b) < 30 * eps) r.amb = true; }
  std::sort(r.pk.begin(), r.pk.end(), [](const std::pair<double, double> &a, const std::pair<double, double> &b) { return a.first > b.first; }); for (size_t i = 1; i < r.pk.size(); ++i) if (r.pk[i - 1].first - r.pk[i].first < 4 * eps) r.amb = true; return r; }
static double adiff(double a, double b) { double d = fmod(a - b, 2 * M_PI); if (d < 0) d += 2 * M_PI; return std::min(d, 2 * M_PI - d); }

VT_CHECK(orientations, 6000, 60000, "at least one orientation") {
  Conf t = setup(c, 16, 56); fvec im; int cls = genimg(c, im, t.w, t.h, c.pick({1.0, 255.0})); c.note("%dx%d %s octaves from %d resolution %d at most %d%s", t.w, t.h, imclass(cls), t.o0, t.res, t.maxOr, t.transposed ? " transposed" : ""); CovPtr d = detector(t); vl_covdet_put_image(d.get(), im.data(), t.w, t.h); VlFrameOrientedEllipse f = genframe(c, t, 10, true); double A[4], D[4], U[4], V[4]; lin(f, A); vl_svd2(D, U, V, A); double B[4] = {U[0] * D[0], U[1] * D[0], U[2] * D[3], U[3] * D[3]}; double mx = vmaxabs(im) + 1e-30;
  vl_size n = 99; VlCovDetFeatureOrientation *q = vl_covdet_extract_orientations_for_frame(d.get(), &n, f); VT_ASSERT(c, n <= (vl_size)t.maxOr, "%d orientations, at most %d allowed", (int)n, t.maxOr); for (vl_size i = 1; i < n; ++i) VT_ASSERT(c, q[i].score <= q[i - 1].score, "orientations not sorted"); for (vl_size i = 0; i < n; ++i) VT_ASSERT(c, q[i].score >= 0.8 * q[0].score, "orientation with %g of the best score", q[i].score / q[0].score);
  int o, s; bool amb = false; VlScaleSpaceGeometry g = geometry(t); pickLevel(g, 1.0, std::min(fabs(D[0]), fabs(D[3])), o, s, amb); if (amb) return; Level L = level(d.get(), o, s); int in = inside(L, B, f.x, f.y, 9); if (!t.padded && in < 0) return; if (!t.padded && !in) { VT_ASSERT(c, n == 0, "orientations for a frame leaving the image although padding is off"); c.label("refused"); return; }
  dvec p = warp(L, B, f.x, f.y, 20, 9); double ls = levelSigma(g, o, s); for (double &v : p) v /= mx; p = orpatch(p, ls / D[0], ls / D[3], 1); Or r = orient(p, atan2(V[1], V[0]), t.transposed, mx); if (r.none || r.amb) { c.label("undecided"); return; } size_t want = std::min<size_t>(t.maxOr, r.pk.size()); if (want) c.nontrivial(); c.label("%d orientations", (int)want); if (r.pk.size() > want) c.label("limited");
  VT_ASSERT(c, n == want, "%d orientations, expected %d", (int)n, (int)want); for (size_t i = 0; i < want; ++i) { VT_ASSERT(c, fabs(q[i].score / mx - r.pk[i].first) <= 2e-3 * r.pk[0].first + 3e-4, "orientation %d has score %g, expected %g", (int)i, q[i].score / mx, r.pk[i].first); VT_ASSERT(c, adiff(q[i].angle, r.pk[i].second) < 0.02, "orientation %d is %.5g rad, expected %.5g", (int)i, q[i].angle, r.pk[i].second); } }

// a linear ramp has one orientation: that of its gradient seen from the frame
VT_CHECK(ramp_orientation, 5000, 50000, "every case") {
  Conf t = setup(c, 60, 80); t.base = 1.6; t.nOct = -1; t.padded = true; vt::Stream s = c.stream(); double th = s.real(0, 6.2832), amp = s.real(0.01, 0.1); int wave = (int)c.i(0, 1); fvec im((size_t)t.w * t.h); double p = exp(s.real(log(0.8), log(2.0))), q = s.below(2) ? p : p * exp(s.real(-0.7, 0)); VlFrameOrientedEllipse f = frame(t.w / 2.0 + s.real(-3, 3), t.h / 2.0 + s.real(-3, 3), p, q, s.real(0, 3.14), s.real(0, 6.28), false);
  for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) { double v = amp * (cos(th) * (x - f.x) + sin(th) * (y - f.y)); im[x + (size_t)y * t.w] = (float)(wave ? v + 0.02 * sin(7 * v) : v); } c.note("%dx%d ramp at %g, frame (%g,%g) [%g %g; %g %g]%s octaves from %d", t.w, t.h, th, f.x, f.y, f.a11, f.a12, f.a21, f.a22, t.transposed ? " transposed" : "", t.o0); CovPtr d = detector(t); vl_covdet_put_image(d.get(), im.data(), t.w, t.h); vl_size n; VlCovDetFeatureOrientation *o = vl_covdet_extract_orientations_for_frame(d.get(), &n, f); VT_ASSERT(c, n == 1, "%d orientations of a linear ramp", (int)n); c.nontrivial();
  double gx = f.a11 * cos(th) + f.a21 * sin(th), gy = f.a12 * cos(th) + f.a22 * sin(th), want = atan2(gy, gx) - (t.transposed ? M_PI / 2 : 0); VT_ASSERT(c, adiff(o[0].angle, want) < 0.035, "orientation %.5g, the gradient in the frame is at %.5g", o[0].angle, want);
  // all features: the frame is rotated so that the gradient is along its first axis (second one if transposed)
  VlCovDetFeature ft; memset(&ft, 0, sizeof ft); ft.frame = f; ft.peakScore = 3; vl_covdet_append_feature(d.get(), &ft); vl_covdet_extract_orientations(d.get()); VlCovDetFeature *r = (VlCovDetFeature *)vl_covdet_get_features(d.get()); VT_ASSERT(c, vl_covdet_get_num_features(d.get()) == 1 && r->peakScore == 3 && r->orientationScore > 0, "one oriented feature expected"); double ux = r->frame.a11 * cos(th) + r->frame.a21 * sin(th), uy = r->frame.a12 * cos(th) + r->frame.a22 * sin(th); VT_ASSERT(c, adiff(atan2(uy, ux), t.transposed ? M_PI / 2 : 0) < 0.035, "the oriented frame sees the gradient at %.5g", atan2(uy, ux)); double d0 = (double)f.a11 * f.a22 - (double)f.a12 * f.a21, d1 = (double)r->frame.a11 * r->frame.a22 - (double)r->frame.a12 * r->frame.a21, k0 = (double)f.a11 * f.a11 + (double)f.a12 * f.a12, k1 = (double)r->frame.a11 * r->frame.a11 + (double)r->frame.a12 * r->frame.a12; VT_ASSERT(c, fabs(d0 - d1) < 1e-4 * d0 && fabs(k0 - k1) < 1e-4 * (k0 + d0) && r->frame.x == f.x && r->frame.y == f.y, "orienting changed the shape or the centre of the frame"); }

// all features of a detector: consistent with the functions for one frame
VT_CHECK(all_features, 1500, 15000, "a feature with several orientations or an affine shape different from the frame") {
  Conf t = setup(c, 24, 56); fvec im; int cls = genimg(c, im, t.w, t.h, 1.0); int n = (int)c.small(0, 8), what = (int)c.i(0, 2); c.note("%dx%d %s %d frames step %d", t.w, t.h, imclass(cls), n, what); t.lap = c.pick({0.01, 0.0, 0.05}); CovPtr d = detector(t), e = detector(t); vl_covdet_put_image(d.get(), im.data(), t.w, t.h); vl_covdet_put_image(e.get(), im.data(), t.w, t.h); std::vector<VlCovDetFeature> in, want, more; std::vector<double> k;
  for (int i = 0; i < n; ++i) { VlCovDetFeature f; memset(&f, 0, sizeof f); f.frame = genframe(c, t, 8, true); f.peakScore = 1 + i; in.push_back(f); vl_covdet_append_feature(d.get(), &f); }
  for (auto &f : in) {
    if (what == 0) { vl_size m; VlCovDetFeatureOrientation *o = vl_covdet_extract_orientations_for_frame(e.get(), &m, f.frame); if (m == 0) want.push_back(f); for (vl_size j = 0; j < m; ++j) { VlCovDetFeature g = f; double C = cos(o[j].angle), S = sin(o[j].angle); g.orientationScore = (float)o[j].score; g.frame.a11 = (float)(f.frame.a11 * C + f.frame.a12 * S); g.frame.a21 = (float)(f.frame.a21 * C + f.frame.a22 * S); g.frame.a12 = (float)(-f.frame.a11 * S + f.frame.a12 * C); g.frame.a22 = (float)(-f.frame.a21 * S + f.frame.a22 * C); (j ? more : want).push_back(g); } if (m > 1) c.nontrivial(); }
    else if (what == 1) { VlFrameOrientedEllipse a; if (vl_covdet_extract_affine_shape_for_frame(e.get(), &a, f.frame) == VL_ERR_OK) { VlCovDetFeature g = f; g.frame = a; want.push_back(g); if (memcmp(&a, &f.frame, sizeof a)) c.nontrivial(); } }
    else { vl_size m; VlCovDetFeatureLaplacianScale *o = vl_covdet_extract_laplacian_scales_for_frame(e.get(), &m, f.frame); VT_ASSERT(c, m <= 4, "%d scales", (int)m); for (vl_size j = 0; j < m; ++j) { VlCovDetFeature g = f; double k = o[j].scale; g.laplacianScaleScore = (float)o[j].score; g.frame.a11 = (float)(g.frame.a11 * k); g.frame.a12 = (float)(g.frame.a12 * k); g.frame.a21 = (float)(g.frame.a21 * k); g.frame.a22 = (float)(g.frame.a22 * k); (j ? more : want).push_back(g); } if (m) c.nontrivial(); } }
  if (what == 0) vl_covdet_extract_orientations(d.get()); else if (what == 1) vl_covdet_extract_affine_shape(d.get()); else vl_covdet_extract_laplacian_scales(d.get()); c.label("%s", what == 0 ? "orientations" : what == 1 ? "affine" : "Laplacian"); want.insert(want.end(), more.begin(), more.end()); VlCovDetFeature *r = (VlCovDetFeature *)vl_covdet_get_features(d.get()); size_t m = vl_covdet_get_num_features(d.get()); VT_ASSERT(c, m == want.size(), "%d features, expected %d", (int)m, (int)want.size()); std::vector<char> used(m, 0);
  for (size_t i = 0; i < m; ++i) { bool hit = false; for (size_t j = 0; j < m && !hit; ++j) if (!used[j]) { const float *a = (const float *)&r[i], *b = (const float *)&want[j]; bool eq = true; for (size_t q = 0; q < sizeof(VlCovDetFeature) / sizeof(float); ++q) eq = eq && (fabs(a[q] - b[q]) <= 1e-5 * (1 + fabs(b[q]))); if (eq) { used[j] = 1; hit = true; } } VT_ASSERT(c, hit, "feature %d (score %g, frame [%g %g; %g %g]) does not come from the function for one frame", (int)i, r[i].peakScore, r[i].frame.a11, r[i].frame.a12, r[i].frame.a21, r[i].frame.a22); } }

// reference of the affine adaptation; jitter perturbs the iteration to tell when the result is well determined
struct Aff { bool err, amb, reset; double A[4]; int iter; };
static Aff affine(VlCovDet *d, const Conf &t, const VlFrameOrientedEllipse &f, double mx, double jitter, vt::Stream &js) {
  Aff r; r.err = r.amb = r.reset = false; VlScaleSpaceGeometry g = geometry(t); double A[4], D[4], U[4], V[4], ref = 0; lin(f, A); memcpy(r.A, A, sizeof A);
  for (r.iter = 0;;) {
    vl_svd2(D, U, V, A); double an = std::max(fabs(D[0] / D[3]), fabs(D[3] / D[0])); if (fabs(an - 5) < 1e-3) r.amb = true; if (an > 5) break; if (r.iter == 0) ref = std::min(fabs(D[0]), fabs(D[3])); double k = ref / std::min(fabs(D[0]), fabs(D[3])); D[0] *= k; D[3] *= k; A[0] = U[0] * D[0]; A[1] = U[1] * D[0]; A[2] = U[2] * D[3]; A[3] = U[3] * D[3]; memcpy(r.A, A, sizeof A); if (++r.iter >= 15) break;
    int o, s; bool amb = false; double sm = std::min(fabs(D[0]), fabs(D[3])); pickLevel(g, 1.0, sm, o, s, amb); if (amb) r.amb = true; Level L = level(d, o, s); int in = inside(L, A, f.x, f.y, 9); if (!t.padded && in < 0) r.amb = true; if (!t.padded && in == 0) { r.err = true; return r; } dvec p = warp(L, A, f.x, f.y, 20, 9), gx, gy; double ls = levelSigma(g, o, s); if (t.accurate) p = orpatch(p, ls / D[0], ls / D[3], 1); for (double &v : p) v = v / mx + jitter * js.real(-1, 1); grad(p, gx, gy); double a = 0, b = 0, e = 0; for (int i = 0; i < Q * Q; ++i) { double m = mask(i); a += gx[i] * gx[i] * m; b += gx[i] * gy[i] * m; e += gy[i] * gy[i] * m; }
    double M[4] = {a, b, b, e}, S[4], P[4], P2[4]; double tr = a + e, df = sqrt((a - e) * (a - e) + 4 * b * b), l1 = (tr + df) / 2, l2 = (tr - df) / 2; if (l2 < 1e-7 || l2 < 1e-3 * l1 || std::min(a, e) < 1e-7) { r.amb = true; return r; } double rat = l1 / l2; if (fabs(rat - 1.001) < 2e-4) r.amb = true; if (rat < 1.001) break; vl_svd2(S, P, P2, M); double q0 = sqrt(S[0]), q1 = sqrt(S[3]), B[4] = {(A[0] * P[0] + A[2] * P[1]) / q0, (A[1] * P[0] + A[3] * P[1]) / q0, (A[0] * P[2] + A[2] * P[3]) / q1, (A[1] * P[2] + A[3] * P[3]) / q1}; memcpy(A, B, sizeof A);
  } return r; }
static void upright(const double A[4], bool transposed, double B[4]) { double det = A[0] * A[3] - A[1] * A[2], rx, ry; if (transposed) { rx = A[3] / det; ry = -A[1] / det; } else { rx = -A[2] / det; ry = A[0] / det; } double an = atan2(ry, rx) - (transposed ? 0 : M_PI / 2), C = cos(an), S = sin(an); B[0] = A[0] * C + A[2] * S; B[1] = A[1] * C + A[3] * S; B[2] = -A[0] * S + A[2] * C; B[3] = -A[1] * S + A[3] * C; }
static void commonAffine(vt::Ctx &c, const Conf &t, const VlFrameOrientedEllipse &f, const VlFrameOrientedEllipse &a) {
  VT_ASSERT(c, a.x == f.x && a.y == f.y, "the centre moved to (%g,%g)", a.x, a.y); double B[4], A[4], b1, s1, b0, s0; lin(a, B); lin(f, A); sv2(B, b1, s1); sv2(A, b0, s0); VT_ASSERT(c, std::isfinite(b1) && std::isfinite(s1), "adapted frame is not finite"); double det = B[0] * B[3] - B[1] * B[2]; VT_ASSERT(c, (det > 0) == (A[0] * A[3] - A[1] * A[2] > 0), "adapted frame mirrored"); if (b0 / s0 < 4.99) VT_ASSERT(c, b1 / s1 < 5.01 && fabs(s1 - s0) <= 1e-3 * s0, "axes %g and %g adapted to %g and %g: anisotropy above 5 or smaller axis changed", b0, s0, b1, s1);
  double off = t.transposed ? B[1] : B[2], dia = t.transposed ? B[0] : B[3]; VT_ASSERT(c, fabs(off) <= 1e-4 * b1 && dia > 0, "adapted frame [%g %g; %g %g] is not upright", B[0], B[2], B[1], B[3]); }
VT_CHECK(affine_shape, 1500, 20000, "shape changed and determined by the reference") {
  Conf t = setup(c, 16, 56); fvec im; int cls = genimg(c, im, t.w, t.h, c.pick({1.0, 255.0})); double mx = vmaxabs(im) + 1e-30; c.note("%dx%d %s octaves from %d resolution %d%s%s", t.w, t.h, imclass(cls), t.o0, t.res, t.transposed ? " transposed" : "", t.accurate ? " accurate" : ""); CovPtr d = detector(t); vl_covdet_put_image(d.get(), im.data(), t.w, t.h); VlFrameOrientedEllipse f = genframe(c, t, 8, true), a; memset(&a, 0, sizeof a); int e = vl_covdet_extract_affine_shape_for_frame(d.get(), &a, f); if (e == VL_ERR_OK) commonAffine(c, t, f, a);
  vt::Stream js = c.stream(); Aff r = affine(d.get(), t, f, mx, 0, js), r2 = affine(d.get(), t, f, mx, 3e-6, js); if (r.amb || r2.amb || r.err != r2.err || r.iter != r2.iter) { c.label("undecided"); return; } VT_ASSERT(c, (e != VL_ERR_OK) == r.err, "affine adaptation returned %d, failure %sexpected", e, r.err ? "" : "not "); if (r.err) { c.label("refused"); return; } double dif = 0, W[4], B[4], W2[4]; upright(r.A, t.transposed, W); upright(r2.A, t.transposed, W2); lin(a, B); double sz = fabs(W[0]) + fabs(W[1]) + fabs(W[2]) + fabs(W[3]); for (int i = 0; i < 4; ++i) dif = std::max(dif, fabs(W[i] - W2[i]) / sz); if (dif > 5e-4) { c.label("unstable"); return; } c.label("%d iterations", r.iter); if (r.iter > 1) c.nontrivial();
  for (int i = 0; i < 4; ++i) VT_ASSERT(c, fabs(B[i] - W[i]) <= (1e-3 + 10 * dif) * sz, "adapted frame [%g %g; %g %g], expected [%g %g; %g %g] after %d iterations", B[0], B[2], B[1], B[3], W[0], W[2], W[1], W[3], r.iter); }
// an anisotropic Gaussian blob becomes isotropic; without accurate smoothing the blob seen is blurred isotropically by up to the frame scale
VT_CHECK(affine_blob, 700, 8000, "blob with axes ratio above 1.2") {
  Conf t = setup(c, 130, 150); t.padded = true; t.nOct = -1; t.o0 = c.pick({0, -1}); t.res = 3; t.base = 1.6; t.accurate = c.b(); vt::Stream s = c.stream(); double q = s.real(4, 6), ratio = s.real(1, 1.9), p = q * ratio, a = s.real(0, 3.1416), bx = t.w / 2.0 + s.real(-2, 2), by = t.h / 2.0 + s.real(-2, 2), sg = s.below(2) ? 1 : -1; fvec im((size_t)t.w * t.h); for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) { double u = (cos(a) * (x - bx) + sin(a) * (y - by)) / p, v = (-sin(a) * (x - bx) + cos(a) * (y - by)) / q; im[x + (size_t)y * t.w] = (float)(0.5 + 0.4 * sg * exp(-0.5 * (u * u + v * v))); } double fs = q * s.real(0.5, 0.8); VlFrameOrientedEllipse f = frame(bx, by, fs, fs, 0, 0, false), r; c.note("%dx%d blob %g/%g at %g, frame scale %g%s", t.w, t.h, p, q, a, fs, t.transposed ? " transposed" : ""); CovPtr d = detector(t); vl_covdet_put_image(d.get(), im.data(), t.w, t.h); VT_ASSERT(c, vl_covdet_extract_affine_shape_for_frame(d.get(), &r, f) == VL_ERR_OK, "refused"); commonAffine(c, t, f, r); if (ratio > 1.2) c.nontrivial();
  double B[4]; lin(r, B); double ux = cos(a), uy = sin(a); auto ext = [&](double x, double y) { return hypot(B[0] * x + B[1] * y, B[2] * x + B[3] * y); };   // extent of the ellipse along a direction
  double l = ext(ux, uy), w = ext(-uy, ux), got = l / w; double low = t.accurate ? ratio : sqrt((p * p + fs * fs) / (q * q + fs * fs)); VT_ASSERT(c, got > 0.93 * low && got < 1.07 * ratio, "blob with axes ratio %.4g adapted to an ellipse with extents ratio %.4g along the same directions", ratio, got); }
// degenerate patterns: stripes, constants, tiny contrast
VT_CHECK(degenerate, 3000, 30000, "every case") {
  Conf t = setup(c, 16, 48); int kind = (int)c.i(0, 4); vt::Stream s = c.stream(); fvec im((size_t)t.w * t.h); double k = s.real(0.1, 2); for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) { double v = kind == 0 ? (x + y) % 8 : kind == 1 ? x - y : kind == 2 ? sin(k * x) : kind == 3 ? sin(k * (x + y)) : 1e-30 * s.uni(); im[x + (size_t)y * t.w] = (float)v; } c.note("%dx%d pattern %d", t.w, t.h, kind); CovPtr d = detector(t); vl_covdet_put_image(d.get(), im.data(), t.w, t.h); VlFrameOrientedEllipse f = genframe(c, t, 6, true), a; int e = vl_covdet_extract_affine_shape_for_frame(d.get(), &a, f); if (e == VL_ERR_OK) commonAffine(c, t, f, a); else VT_ASSERT(c, !t.padded, "refused with code %d", e); vl_size n; VlCovDetFeatureOrientation *o = vl_covdet_extract_orientations_for_frame(d.get(), &n, f); for (vl_size i = 0; i < n; ++i) VT_ASSERT(c, std::isfinite(o[i].angle) && std::isfinite(o[i].score), "orientation not finite"); vl_covdet_extract_laplacian_scales_for_frame(d.get(), &n, f); c.nontrivial(); c.label("pattern %d", kind); }
int main(int a, char **b) { return vt::vt_main(a, b); }
