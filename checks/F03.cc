// F03: SIFT orientations and descriptors.
#include "feat.h"
#include "vl_all.h"
static const double PI = 3.14159265358979323846;
typedef std::unique_ptr<VlSiftFilt, void (*)(VlSiftFilt *)> Own;
// gradient modulus and angle of a level: central differences, one-sided on the border
static void polar(const float *p, int w, int h, dvec &mod, dvec &ang) { mod.resize((size_t)w * h); ang.resize((size_t)w * h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { auto P = [&](int X, int Y) { return p[X + (size_t)Y * w]; };
    float gx = x == 0 ? P(1, y) - P(0, y) : x == w - 1 ? P(x, y) - P(x - 1, y) : 0.5f * (P(x + 1, y) - P(x - 1, y)), gy = y == 0 ? P(x, 1) - P(x, 0) : y == h - 1 ? P(x, y) - P(x, y - 1) : 0.5f * (P(x, y + 1) - P(x, y - 1));
    mod[x + (size_t)y * w] = vl_fast_sqrt_f(gx * gx + gy * gy); ang[x + (size_t)y * w] = vl_mod_2pi_f(vl_fast_atan2_f(gy, gx) + 2 * VL_PI); } }
struct Geo { double x, y, sigma, ang, magnif, win; };
// reference descriptor before normalisation; xb,yb: pixels left out along the border
static void rawhist(const dvec &mod, const dvec &ang, int w, int h, int border, const Geo &g, double out[128]) {
  int xi = (int)(g.x + 0.5), yi = (int)(g.y + 0.5); double sbp = g.magnif * g.sigma; int W = (int)floor(sqrt(2.0) * sbp * 2.5 + 0.5); std::fill(out, out + 128, 0.0);
  for (int y = std::max(yi - W, border); y <= std::min(yi + W, h - 1 - border); ++y) for (int x = std::max(xi - W, border); x <= std::min(xi + W, w - 1 - border); ++x) {
    double dx = x - g.x, dy = y - g.y, u = (cos(g.ang) * dx + sin(g.ang) * dy) / sbp, v = (-sin(g.ang) * dx + cos(g.ang) * dy) / sbp, q = (u * u + v * v) / (2 * g.win * g.win); double wt = q > 25 ? 0 : exp(-q), th = fmod(ang[x + (size_t)y * w] - g.ang, 2 * PI); if (th < 0) th += 2 * PI; double t = 8 * th / (2 * PI);
    for (int b = 0; b < 16; ++b) { double cx = (b % 4) - 1.5, cy = (b / 4) - 1.5, kx = 1 - fabs(u - cx), ky = 1 - fabs(v - cy); if (kx <= 0 || ky <= 0) continue; for (int o = 0; o < 8; ++o) { double d = fabs(t - o); d = std::min(d, 8 - d); if (d < 1) out[o + 8 * b] += wt * mod[x + (size_t)y * w] * kx * ky * (1 - d); } } } }
static double norm128(const double *d) { double s = 0; for (int i = 0; i < 128; ++i) s += d[i] * d[i]; return sqrt(s); }
static void finish(double d[128]) { double n = norm128(d) + 1.19209290E-07; for (int i = 0; i < 128; ++i) d[i] = std::min(d[i] / n, 0.2); n = norm128(d) + 1.19209290E-07; for (int i = 0; i < 128; ++i) d[i] /= n; }
static void compare(vt::Ctx &c, const float *got, const double *ref, const char *what) {for (int i = 0; i < 128; ++i) VT_ASSERT(c, got[i] >= 0 && fabs(got[i] - ref[i]) <= 6e-3 * ref[i] + 4e-4, "%s descriptor element %d (orientation %d, cell %d,%d) is %.7g, histogram gives %.7g", what, i, i % 8, (i / 8) % 4, i / 32, (double)got[i], ref[i]); }

struct World { int w, h, O, S, o0; fvec im; int cls; double amp; };
static World world(vt::Ctx &c, int lo, int hi) { World t; t.o0 = (int)c.pick({0, 0, -1, 1}); int k = t.o0 > 0 ? 2 : 1; t.w = (int)c.i(lo * k, hi); t.h = (int)c.i(lo * k, hi); if (t.o0 < 0) { t.w = (t.w + 1) / 2; t.h = (t.h + 1) / 2; } t.O = (int)c.i(1, 3); t.S = (int)c.pick({3, 2, 5, 1}); t.amp = c.pick({255.0, 1.0, 255.0, 1e3}); t.cls = genimg(c, t.im, t.w, t.h, t.amp); c.note("%dx%d first octave %d octaves %d levels %d amplitude %g %s", t.w, t.h, t.o0, t.O, t.S, t.amp, imclass(t.cls)); return t; }
static VlSiftKeypoint randkey(vt::Ctx &c, VlSiftFilt *f, bool inside) { int w = vl_sift_get_octave_width(f), h = vl_sift_get_octave_height(f), o = vl_sift_get_octave_index(f); double per = pow(2.0, o); VlSiftKeypoint k; memset(&k, 0, sizeof k); k.o = o; double X, Y; int m = (int)c.i(0, 3);
  if (m == 0) { X = (double)c.i(0, w - 1); Y = (double)c.i(0, h - 1); } else if (m == 1) { X = c.i(0, w - 1) + 0.5 * c.b(); Y = c.i(0, h - 1) + 0.5 * c.b(); } else { X = c.real(-0.49, w - 0.51); Y = c.real(-0.49, h - 0.51); } if (!inside && c.chance(1, 20)) { X = c.b() ? -3 : w + 2; } if (!inside && c.chance(1, 20)) { Y = c.b() ? -4 : h + 1; }
  k.x = X * per; k.y = Y * per; k.sigma = (c.chance(1, 8) ? c.real(0.05, 0.6) : c.chance(1, 4) ? 1.0 : c.real(0.6, 4)) * per; k.is = (int)c.i(0, vl_sift_get_nlevels(f) - 1); if (!inside && c.chance(1, 20)) k.is = (int)c.pick({-2, -1, 99, vl_sift_get_nlevels(f), vl_sift_get_nlevels(f) + 1}); k.s = k.is; k.ix = (int)(X + 0.5); k.iy = (int)(Y + 0.5); if (!inside && c.chance(1, 20)) k.o = o + (c.b() ? 1 : -1); return k; }
// advances to a random octave of at least 2x2 pixels; false if there is none
static bool advance(vt::Ctx &c, VlSiftFilt *f, const World &t, int steps) { (void)c; vl_sift_process_first_octave(f, t.im.data()); for (int i = 0; i < steps; ++i) { if ((vl_sift_get_octave_width(f) >> 1) < 2 || (vl_sift_get_octave_height(f) >> 1) < 2) break; if (vl_sift_process_next_octave(f)) break; } return vl_sift_get_octave_width(f) >= 2 && vl_sift_get_octave_height(f) >= 2; }

VT_CHECK(orientations, 30000, 1000000, "at least one unambiguous histogram peak") {
  World t = world(c, 3, 40); VlSiftFilt *f = vl_sift_new(t.w, t.h, t.O, t.S, t.o0); Own own(f, vl_sift_delete); if (!advance(c, f, t, (int)c.i(0, 2))) c.discard(); int o = vl_sift_get_octave_index(f), w = vl_sift_get_octave_width(f), h = vl_sift_get_octave_height(f); double per = pow(2.0, o); int nk = (int)c.i(1, 4), last = -99; dvec mod, ang;
  for (int q = 0; q < nk; ++q) {
    VlSiftKeypoint k = randkey(c, f, false); double a[5] = {-7, -7, -7, -7, -7}; int n = vl_sift_calc_keypoint_orientations(f, a, &k); double x = k.x / per, y = k.y / per, sg = k.sigma / per; int xi = (int)(x + 0.5), yi = (int)(y + 0.5); VT_ASSERT(c, n >= 0 && n <= 4 && a[4] == -7, "%d orientations", n);
    if (k.o != o || xi < 0 || yi < 0 || xi > w - 1 || yi > h - 1 || k.is < 0 || k.is > t.S - 1) { c.label("key outside the octave"); VT_ASSERT(c, n == 0, "%d orientations for a key outside the octave (octave %d of %d, x=%g y=%g level %d)", n, k.o, o, x, y, k.is); continue; }
    if (x < 0 && x > -0.5) {} if (k.is != last) { polar(vl_sift_get_octave(f, k.is), w, h, mod, ang); last = k.is; }
    double sw = 1.5 * sg; int W = std::max((int)floor(3 * sw), 1); double hist[36] = {0}; bool amb = fabs(3 * sw - floor(3 * sw + 0.5)) < 1e-9;
    for (int yy = std::max(0, yi - W); yy <= std::min(h - 1, yi + W); ++yy) for (int xx = std::max(0, xi - W); xx <= std::min(w - 1, xi + W); ++xx) { double r2 = (xx - x) * (xx - x) + (yy - y) * (yy - y); if (fabs(r2 - W * W - 0.6) < 1e-9) amb = true; if (r2 >= W * W + 0.6) continue; double e = r2 / (2 * sw * sw), wt = e > 25 ? 0 : exp(-e), fb = 36 * ang[xx + (size_t)yy * w] / (2 * PI) - 0.5; int b = (int)floor(fb); double r = fb - b; hist[(b + 36) % 36] += (1 - r) * wt * mod[xx + (size_t)yy * w]; hist[(b + 37) % 36] += r * wt * mod[xx + (size_t)yy * w]; }
    if (amb) continue; for (int it = 0; it < 6; ++it) { double b[36]; for (int i = 0; i < 36; ++i) b[i] = (hist[(i + 35) % 36] + hist[i] + hist[(i + 1) % 36]) / 3; memcpy(hist, b, sizeof b); }
    double mx = 0; for (double v : hist) mx = std::max(mx, v); const double E = 1.3e-3; struct Pk { double th, tol; bool sure; }; std::vector<Pk> P; int sure = 0; if (!(mx > 1e-12)) { c.label("no gradient"); if (mx == 0) VT_ASSERT(c, n == 0, "%d orientations without any gradient", n); continue; }
    for (int i = 0; i < 36; ++i) { double h0 = hist[i], hm = hist[(i + 35) % 36], hp = hist[(i + 1) % 36], e = 2 * E * h0; if (h0 < 0.8 * mx - e || h0 < hm - e || h0 < hp - e) continue; double den = 2 * h0 - hm - hp, tol = den > 8 * e ? (2 * PI / 36) * (e / den + 0.5 * fabs(hp - hm) * 2 * e / (den * den)) + 1e-5 : 2 * PI / 36 * 1.1; Pk p; p.th = 2 * PI * (i + 0.5 + (den > 0 ? 0.5 * (hp - hm) / den : 0)) / 36; p.tol = tol; p.sure = h0 > 0.8 * mx + e && h0 > hm + e && h0 > hp + e; sure += p.sure; P.push_back(p); }
    for (int i = 0; i < n; ++i) { bool ok = false; for (auto &p : P) { double d = fabs(fmod(a[i] - p.th + 3 * PI, 2 * PI) - PI); if (d <= p.tol) ok = true; } VT_ASSERT(c, ok, "orientation %.6g is not a peak of at least 80%% of the maximum (key x=%g y=%g sigma=%g level %d, %zu peaks)", a[i], x, y, sg, k.is, P.size()); for (int j = 0; j < i; ++j) VT_ASSERT(c, a[i] != a[j], "orientation returned twice"); }
    if (sure) c.nontrivial(); c.label("%d sure, %zu possible peaks", sure, P.size()); if (P.size() <= 4) for (auto &p : P) if (p.sure) { bool ok = false; for (int i = 0; i < n; ++i) if (fabs(fmod(a[i] - p.th + 3 * PI, 2 * PI) - PI) <= p.tol) ok = true; VT_ASSERT(c, ok, "peak at %.6g missing among %d orientations (key x=%g y=%g sigma=%g level %d)", p.th, n, x, y, sg, k.is); } else {} else VT_ASSERT(c, n >= std::min(4, sure), "%d orientations, %d peaks", n, sure);
  }
}
VT_CHECK(keypoint_descriptor, 40000, 1000000, "key inside the octave with non-zero gradients") {
  World t = world(c, 3, 40); VlSiftFilt *f = vl_sift_new(t.w, t.h, t.O, t.S, t.o0); Own own(f, vl_sift_delete); double mg = c.pick({3.0, 3.0, 1.0, 6.0, 0.5}), ws = c.pick({2.0, 2.0, 0.5, 1.0, 10.0}), nt = c.chance(1, 4) ? c.pick({0.01, 0.1, 1.0, 10.0}) * t.amp / 10 : 0; vl_sift_set_magnif(f, mg); vl_sift_set_window_size(f, ws); vl_sift_set_norm_thresh(f, nt); VT_ASSERT(c, vl_sift_get_magnif(f) == mg && vl_sift_get_window_size(f) == ws && vl_sift_get_norm_thresh(f) == nt, "parameters not stored");
  if (!advance(c, f, t, (int)c.i(0, 2))) c.discard(); int o = vl_sift_get_octave_index(f), w = vl_sift_get_octave_width(f), h = vl_sift_get_octave_height(f); double per = pow(2.0, o); int nk = (int)c.i(1, 3); dvec mod, ang; c.note("octave %d (%dx%d) magnif %g window %g norm threshold %g", o, w, h, mg, ws, nt);
  for (int q = 0; q < nk; ++q) {
    VlSiftKeypoint k = randkey(c, f, false); double a0 = c.pick({0.0, 1.0, 2.0, 3.0}) == 0 ? 0 : c.real(-7, 13); std::unique_ptr<float[]> d(new float[128]); for (int i = 0; i < 128; ++i) d[i] = -9 - i; vl_sift_calc_keypoint_descriptor(f, d.get(), &k, a0); double x = k.x / per, y = k.y / per, sg = k.sigma / per; int xi = (int)(x + 0.5), yi = (int)(y + 0.5);
    bool same = true; for (int i = 0; i < 128; ++i) if (d[i] != -9 - i) same = false;
    if (k.o != o || xi < 0 || yi < 0 || xi >= w || yi > h - 1 || k.is < 0 || k.is > t.S - 1) { for (int i = 0; i < 128; ++i) VT_ASSERT(c, d[i] == 0, "descriptor of a key outside the octave not zero (octave %d of %d, x=%g y=%g level %d)", k.o, o, x, y, k.is); c.label("key outside the octave"); continue; }
    VT_ASSERT(c, !same, "no descriptor for a key inside the octave");
    polar(vl_sift_get_octave(f, k.is), w, h, mod, ang); double ref[128]; Geo g{x, y, sg, a0, mg, ws}; double fr = sqrt(2.0) * mg * sg * 2.5 + 0.5; if (fabs(fr - floor(fr + 0.5)) < 1e-9) { c.label("window on a rounding boundary"); continue; } rawhist(mod, ang, w, h, 1, g, ref); double n = norm128(ref); if (nt && fabs(n - nt) < 5e-3 * nt) continue;
    c.label(n < 1e-6 ? "no gradient" : nt && n < nt ? "suppressed by the norm threshold" : "descriptor"); if (nt && n < nt) { for (int i = 0; i < 128; ++i) VT_ASSERT(c, d[i] == 0, "low-contrast descriptor not zeroed (norm %g, threshold %g)", n, nt); continue; }
    if (n > 1e-5) c.nontrivial(); else if (n != 0) continue; c.note("[key x=%.9g y=%.9g sigma=%.9g level %d angle %.9g, norm %g]", x, y, sg, k.is, a0, n); finish(ref); compare(c, d.get(), ref, "key point"); double s = 0; for (int i = 0; i < 128; ++i) s += d[i] * (double)d[i]; VT_ASSERT(c, n == 0 ? s == 0 : fabs(sqrt(s) - 1) < 2e-3, "descriptor norm %g", sqrt(s));
  }
}
VT_CHECK(raw_descriptor, 60000, 2000000, "centre inside the field, non-zero gradients") {
  int w = (int)c.i(1, 30), h = (int)c.i(1, 30); VlSiftFilt *f = vl_sift_new(16, 16, 1, 3, 0); Own own(f, vl_sift_delete); double mg = c.pick({3.0, 1.0, 6.0, 0.7}), ws = c.pick({2.0, 0.5, 1.0, 10.0}), nt = c.chance(1, 4) ? c.pick({1e-3, 1e-2, 0.1}) : 0; vl_sift_set_magnif(f, mg); vl_sift_set_window_size(f, ws); vl_sift_set_norm_thresh(f, nt); vt::Stream s = c.stream(); int sparse = (int)c.i(0, 2); fvec gr((size_t)2 * w * h); dvec mod((size_t)w * h), ang((size_t)w * h); for (int i = 0; i < w * h; ++i) { gr[2 * i] = sparse == 0 ? (float)s.uni() : s.below(sparse == 1 ? 4 : 60) == 0; gr[2 * i + 1] = s.below(8) == 0 ? (float)(s.below(8) * PI / 4) : (float)s.real(0, 6.2831); mod[i] = gr[2 * i]; ang[i] = gr[2 * i + 1]; }
  Geo g; g.x = c.b() ? (double)c.i(-2, w + 1) : c.real(-2, w + 1) ; g.y = c.b() ? (double)c.i(-2, h + 1) : c.real(-2, h + 1); if (c.b()) { g.x += 0.5; g.y += 0.5; } g.sigma = c.chance(1, 4) ? 1.0 : c.real(0.2, 4); g.ang = c.b() ? 0 : c.real(-7, 7); g.magnif = mg; g.win = ws; c.note("%dx%d x=%g y=%g sigma=%g angle=%g magnif %g window %g threshold %g", w, h, g.x, g.y, g.sigma, g.ang, mg, ws, nt);
  std::unique_ptr<float[]> d(new float[128]); for (int i = 0; i < 128; ++i) d[i] = -9 - i; vl_sift_calc_raw_descriptor(f, gr.data(), d.get(), w, h, g.x, g.y, g.sigma, g.ang); bool same = true; for (int i = 0; i < 128; ++i) if (d[i] != -9 - i) same = false; int xi = (int)(g.x + 0.5), yi = (int)(g.y + 0.5); if (xi < 0 || yi < 0 || xi >= w || yi >= h) { for (int i = 0; i < 128; ++i) VT_ASSERT(c, d[i] == 0, "descriptor of a centre outside the field not zero"); return; } VT_ASSERT(c, !same, "no descriptor for a centre inside the field");
  double ref[128], fr = sqrt(2.0) * mg * g.sigma * 2.5 + 0.5; if (fabs(fr - floor(fr + 0.5)) < 1e-9) return; rawhist(mod, ang, w, h, 0, g, ref); int W = (int)floor(fr); double ns = (double)(std::min(W, w - xi - 1) - std::max(-W, -xi) + 1) * (std::min(W, h - yi - 1) - std::max(-W, -yi) + 1), n = norm128(ref), th = nt * ns; if (nt && fabs(n - th) < 5e-3 * th + 1e-6) return; if (nt && n < th) { c.label("suppressed by the norm threshold"); for (int i = 0; i < 128; ++i) VT_ASSERT(c, d[i] == 0, "low-contrast descriptor not zeroed"); return; }
  if (n > 1e-5) c.nontrivial(); else if (n > 0) return; c.label("descriptor"); finish(ref); compare(c, d.get(), ref, "raw");
}
VT_CHECK(keypoint_init, 20000, 400000, "scale inside the covered range") {
  int o0 = (int)c.i(-2, 2), O = (int)c.i(1, 6), S = (int)c.i(1, 6); VlSiftFilt *f = vl_sift_new(64, 48, O, S, o0); Own own(f, vl_sift_delete); double s0 = 1.6 * pow(2.0, 1.0 / S), sg = exp(c.real(log(0.05), log(400))), x = c.real(0, 63), y = c.real(0, 47); VlSiftKeypoint k; memset(&k, 0xff, sizeof k); vl_sift_keypoint_init(f, &k, x, y, sg); c.note("sigma %g first octave %d octaves %d levels %d -> octave %d level %d (%g)", sg, o0, O, S, k.o, k.is, (double)k.s);
  VT_ASSERT(c, k.x == (float)x && k.y == (float)y && k.sigma == (float)sg, "position or scale not stored"); VT_ASSERT(c, k.o >= o0 && k.o < o0 + O && k.is >= 0 && k.is <= S - 1, "octave or level out of range"); double tot = S * log2(sg / s0); VT_ASSERT(c, fabs(k.s + (double)S * k.o - tot) < 1e-3 * (1 + fabs(tot)), "octave and level do not give the scale"); double per = pow(2.0, k.o); VT_ASSERT(c, fabs(k.ix - x / per) <= 0.5001 && fabs(k.iy - y / per) <= 0.5001, "integer position");
  if (k.s > -0.5 && k.s < S - 0.5) { c.nontrivial(); VT_ASSERT(c, fabs(k.is - k.s) <= 0.5001, "level %d is not the nearest to %g", k.is, (double)k.s); } else if (k.s <= -0.5) VT_ASSERT(c, k.is == 0 && (k.o == o0 || k.s > -0.5001), "a finer octave would fit"); else VT_ASSERT(c, k.is == S - 1 && (k.o == o0 + O - 1 || k.s < S - 0.4999), "a coarser octave would fit");
}
VT_CHECK(contrast_invariance, 5000, 30000, "descriptor with sufficient contrast") {
  World t = world(c, 6, 32); if (t.amp < 255) { for (float &v : t.im) v *= 255; t.amp = 255; } World u = t; double gain = c.pick({2.0, 0.5, 1.7, 3.3}), off = c.real(-0.5, 2) * t.amp * gain; for (float &v : u.im) v = (float)(gain * v + off); VlSiftFilt *f = vl_sift_new(t.w, t.h, t.O, t.S, t.o0), *g = vl_sift_new(t.w, t.h, t.O, t.S, t.o0); Own o1(f, vl_sift_delete), o2(g, vl_sift_delete); int st = (int)c.i(0, 2); if (!advance(c, f, t, st) || !advance(c, g, u, st)) c.discard();
  VlSiftKeypoint k = randkey(c, f, true); int w = vl_sift_get_octave_width(f), h = vl_sift_get_octave_height(f); dvec mod, ang; polar(vl_sift_get_octave(f, k.is), w, h, mod, ang); double mm = 0, mn = 1e30; for (double v : mod) { mm = std::max(mm, v); mn = std::min(mn, v); } if (mm < 0.01 * t.amp) c.discard(); double a0 = c.real(0, 6.28); fvec d1(128, 0), d2(128, 0); vl_sift_calc_keypoint_descriptor(f, d1.data(), &k, a0); vl_sift_calc_keypoint_descriptor(g, d2.data(), &k, a0); double ref[128]; double per = pow(2.0, vl_sift_get_octave_index(f)); rawhist(mod, ang, w, h, 1, Geo{k.x / per, k.y / per, k.sigma / per, a0, 3, 2}, ref); if (norm128(ref) < 0.01 * t.amp) c.discard(); c.nontrivial(); c.note("gain %g offset %g", gain, off);
  for (int i = 0; i < 128; ++i) VT_ASSERT(c, fabs(d1[i] - d2[i]) < 2e-3, "element %d changes from %g to %g with gain %g and offset %g", i, (double)d1[i], (double)d2[i], gain, off);
}
VT_CHECK(reuse, 4000, 30000, "descriptors computed on both images") {
  World t = world(c, 6, 32), u = t; u.cls = genimg(c, u.im, t.w, t.h, t.amp); VlSiftFilt *f = vl_sift_new(t.w, t.h, t.O, t.S, t.o0), *g = vl_sift_new(t.w, t.h, t.O, t.S, t.o0); Own o1(f, vl_sift_delete), o2(g, vl_sift_delete); int s1 = (int)c.i(0, 2), s2 = (int)c.i(0, 2); float d1[128], d2[128]; double a1[4], a2[4];
  if (!advance(c, f, t, s1)) c.discard(); for (int i = (int)c.i(0, 2); i > 0; --i) { if (c.b()) vl_sift_detect(f); VlSiftKeypoint k = randkey(c, f, true); if (c.b()) vl_sift_calc_keypoint_descriptor(f, d1, &k, 0.3); else vl_sift_calc_keypoint_orientations(f, a1, &k); }
  // second image on the used and on a fresh filter, all octaves
  int e1 = vl_sift_process_first_octave(f, u.im.data()), e2 = vl_sift_process_first_octave(g, u.im.data()); (void)s2;
  for (int n = 0; n < 5; ++n) { VT_ASSERT(c, e1 == e2, "different end of octaves"); if (e1) break; int w = vl_sift_get_octave_width(f), h = vl_sift_get_octave_height(f); VT_ASSERT(c, w == vl_sift_get_octave_width(g) && h == vl_sift_get_octave_height(g), "octave size"); for (int s = -1; s <= t.S + 1; ++s) VT_ASSERT(c, !memcmp(vl_sift_get_octave(f, s), vl_sift_get_octave(g, s), sizeof(float) * w * h), "level %d differs on a reused filter", s); if (w < 2 || h < 2) break;
    vl_sift_detect(f); vl_sift_detect(g); int nk = vl_sift_get_nkeypoints(f); VT_ASSERT(c, nk == vl_sift_get_nkeypoints(g), "%d keypoints on a reused filter, %d on a fresh one", nk, vl_sift_get_nkeypoints(g)); std::vector<VlSiftKeypoint> K; for (int i = 0; i < nk && i < 6; ++i) { const VlSiftKeypoint *p = vl_sift_get_keypoints(f) + i, *q = vl_sift_get_keypoints(g) + i; VT_ASSERT(c, p->x == q->x && p->y == q->y && p->s == q->s && p->sigma == q->sigma, "keypoint %d differs on a reused filter", i); K.push_back(*p); } K.push_back(randkey(c, f, true)); K.push_back(randkey(c, f, true));
    for (auto &k : K) { memset(d1, 0, sizeof d1); memset(d2, 0, sizeof d2); int n1 = vl_sift_calc_keypoint_orientations(f, a1, &k), n2 = vl_sift_calc_keypoint_orientations(g, a2, &k); VT_ASSERT(c, n1 == n2 && !memcmp(a1, a2, n1 * sizeof(double)), "orientations differ on a reused filter"); vl_sift_calc_keypoint_descriptor(f, d1, &k, 0.7); vl_sift_calc_keypoint_descriptor(g, d2, &k, 0.7); VT_ASSERT(c, !memcmp(d1, d2, sizeof d1), "descriptor differs on a reused filter"); c.nontrivial(); }
    e1 = vl_sift_process_next_octave(f); e2 = vl_sift_process_next_octave(g); }
}
int main(int a, char **b) { return vt::vt_main(a, b); }
