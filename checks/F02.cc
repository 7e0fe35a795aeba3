// F02: SIFT scale space and detection.
#include "feat.h"
#include "vl_all.h"
struct Set { int w, h, O, S, o0; fvec im; int cls; double amp; };
static Set setup(vt::Ctx &c, int lo, int hi) {
  Set t; t.o0 = (int)c.pick({0, 0, -1, 1, -2, 2, -3}); int top = t.o0 < -1 ? hi / 2 : hi; t.w = (int)c.i(lo, top); t.h = (int)c.i(lo, top); t.O = (int)c.i(1, 5); t.S = (int)c.pick({3, 3, 1, 2, 4, 5}); t.amp = c.pick({255.0, 255.0, 1.0, 1e4}); t.cls = genimg(c, t.im, t.w, t.h, t.amp);
  c.note("%dx%d first octave %d octaves %d levels %d amplitude %g %s", t.w, t.h, t.o0, t.O, t.S, t.amp, imclass(t.cls)); return t; }
static double sig(const Set &t, int s) { return 1.6 * pow(2.0, (s + 1.0) / t.S); }
static int osz(int n, int o) { return o < 0 ? n << -o : n >> o; }

VT_CHECK(levels, 5000, 60000, "image that is not constant, octave of at least 2x2 pixels") {
  Set t = setup(c, 1, 40); VlSiftFilt *f = vl_sift_new(t.w, t.h, t.O, t.S, t.o0); std::unique_ptr<VlSiftFilt, void (*)(VlSiftFilt *)> own(f, vl_sift_delete); bool first = true; double mx = vmaxabs(t.im) + 1e-30; c.label("first octave %d", t.o0); c.label("%d levels", t.S);
  int reuse = c.chance(1, 4); if (reuse) { fvec o2; genimg(c, o2, t.w, t.h, t.amp); vl_sift_process_first_octave(f, o2.data()); vl_sift_detect(f); }
  dvec base(t.im.begin(), t.im.end()); int w = t.w, h = t.h; if (t.o0 < 0) for (int k = 0; k < -t.o0; ++k) { base = upsample2(base, w, h); w *= 2; h *= 2; } else if (t.o0 > 0) { base = subsample(base, w, h, 1 << t.o0); w >>= t.o0; h >>= t.o0; }
  double have = 0.5 * pow(2.0, -t.o0); dvec lev, keep;
  for (int o = t.o0; o < t.o0 + t.O; ++o) {
    int e = first ? vl_sift_process_first_octave(f, t.im.data()) : vl_sift_process_next_octave(f); first = false; VT_ASSERT(c, e == VL_ERR_OK, "octave %d of %d not produced (code %d)", o - t.o0, t.O, e);
    VT_ASSERT(c, vl_sift_get_octave_index(f) == o && vl_sift_get_octave_width(f) == osz(t.w, o) && vl_sift_get_octave_height(f) == osz(t.h, o), "octave index or size: got %d, %dx%d; expected %d, %dx%d", vl_sift_get_octave_index(f), vl_sift_get_octave_width(f), vl_sift_get_octave_height(f), o, osz(t.w, o), osz(t.h, o));
    VT_ASSERT(c, vl_sift_get_nkeypoints(f) == 0, "keypoints before detection"); w = osz(t.w, o); h = osz(t.h, o); if (w < 1 || h < 1) break; if (w > 1 && h > 1 && t.cls != 6) c.nontrivial();
    double s0 = sig(t, -1), d2 = s0 * s0 - have * have; lev = d2 > 1e-9 ? gsmooth(base, w, h, sqrt(d2)) : base;
    for (int s = -1; s <= t.S + 1; ++s) { if (s > -1) lev = gsmooth(lev, w, h, sqrt(sig(t, s) * sig(t, s) - sig(t, s - 1) * sig(t, s - 1))); const vl_sift_pix *g = vl_sift_get_octave(f, s); for (int i = 0; i < w * h; ++i) VT_ASSERT(c, fabs(g[i] - lev[i]) <= 2e-5 * mx, "octave %d level %d pixel (%d,%d) of %dx%d: %.8g, Gaussian smoothing gives %.8g", o, s, i % w, i / w, w, h, (double)g[i], lev[i]); if (s == t.S - 1) keep = lev; }
    base = subsample(keep, w, h, 2); have = s0;
  }
  if (!first && vl_sift_get_octave_index(f) == t.o0 + t.O - 1) for (int k = 0; k < 2; ++k) VT_ASSERT(c, vl_sift_process_next_octave(f) == VL_ERR_EOF && vl_sift_get_octave_index(f) == t.o0 + t.O - 1, "octaves do not end after the last one");
}

struct Cand { double x, y, s, sigma; int st; };   // st: 2 certainly a keypoint, 1 undecidable
struct P3 { const float *d; int w, h; double at(int x, int y, int s) const { return d[x + (size_t)y * w + (size_t)s * w * h]; } };
static void reference(const Set &t, const std::vector<fvec> &lv, int w, int h, int o, double tp, double te, std::vector<Cand> &out) {
  int nd = t.S + 2; fvec dog((size_t)nd * w * h); for (int s = 0; s < nd; ++s) for (int i = 0; i < w * h; ++i) dog[(size_t)s * w * h + i] = lv[s + 1][i] - lv[s][i]; P3 D{dog.data(), w, h};
  for (int s = 1; s + 1 < nd; ++s) for (int y = 1; y + 1 < h; ++y) for (int x = 1; x + 1 < w; ++x) {
    double v = D.at(x, y, s); bool mx = v >= 0.8 * tp, mn = v <= -0.8 * tp; for (int a = -1; a <= 1 && (mx || mn); ++a) for (int b = -1; b <= 1; ++b) for (int e = -1; e <= 1; ++e) if (a || b || e) { double u = D.at(x + e, y + b, s + a); if (!(v > u)) mx = false; if (!(v < u)) mn = false; }
    if (!mx && !mn) continue; Cand k; k.st = 0; int cx = x, cy = y; double b[3], g[3], A[3][3], I[3][3], err = 0, scale = 0; bool amb = fabs(fabs(v) - 0.8 * tp) < 1e-6 * tp && tp > 0; bool sing = false;
    for (int it = 0; it < 5; ++it) {
      scale = 0; for (int a = -1; a <= 1; ++a) for (int p = -1; p <= 1; ++p) for (int q = -1; q <= 1; ++q) scale = std::max(scale, fabs(D.at(cx + q, cy + p, s + a)));
      auto f = [&](int p, int q, int r) { return D.at(cx + p, cy + q, s + r); };
      g[0] = 0.5 * (f(1, 0, 0) - f(-1, 0, 0)); g[1] = 0.5 * (f(0, 1, 0) - f(0, -1, 0)); g[2] = 0.5 * (f(0, 0, 1) - f(0, 0, -1));
      A[0][0] = f(1, 0, 0) + f(-1, 0, 0) - 2 * f(0, 0, 0); A[1][1] = f(0, 1, 0) + f(0, -1, 0) - 2 * f(0, 0, 0); A[2][2] = f(0, 0, 1) + f(0, 0, -1) - 2 * f(0, 0, 0);
      A[0][1] = A[1][0] = 0.25 * (f(1, 1, 0) + f(-1, -1, 0) - f(-1, 1, 0) - f(1, -1, 0)); A[0][2] = A[2][0] = 0.25 * (f(1, 0, 1) + f(-1, 0, -1) - f(-1, 0, 1) - f(1, 0, -1)); A[1][2] = A[2][1] = 0.25 * (f(0, 1, 1) + f(0, -1, -1) - f(0, -1, 1) - f(0, 1, -1));
      sing = !inv3(A, I); if (sing) { amb = true; break; } double in = 0; for (int i = 0; i < 3; ++i) { b[i] = 0; for (int j = 0; j < 3; ++j) { b[i] -= I[i][j] * g[j]; in = std::max(in, fabs(I[i][j])); } }
      double bm = std::max(fabs(b[0]), std::max(fabs(b[1]), fabs(b[2]))); err = 9 * in * 1e-6 * scale * (1 + bm) + 1e-9; if (in > 1e8) amb = true; if (err > 0.05) { amb = true; break; }
      int dx = 0, dy = 0; if (b[0] > 0.6 && cx < w - 2) dx = 1; if (b[0] < -0.6 && cx > 1) dx = -1; if (b[1] > 0.6 && cy < h - 2) dy = 1; if (b[1] < -0.6 && cy > 1) dy = -1; if (fabs(fabs(b[0]) - 0.6) < 2 * err || fabs(fabs(b[1]) - 0.6) < 2 * err) { amb = true; break; }
      if (!dx && !dy) break; if (it < 4) { cx += dx; cy += dy; }
    }
    if (amb) { k.st = 1; k.x = -1e9; out.push_back(k); continue; }
    double val = D.at(cx, cy, s) + 0.5 * (g[0] * b[0] + g[1] * b[1] + g[2] * b[2]), det = A[0][0] * A[1][1] - A[0][1] * A[0][1], tr = A[0][0] + A[1][1], score = tr * tr / det, thr = (te + 1) * (te + 1) / te; double eA = 1e-6 * scale, eD = 4 * eA * (fabs(A[0][0]) + fabs(A[1][1]) + fabs(A[0][1]) + eA);
    double X = cx + b[0], Y = cy + b[1], Z = s - 1 + b[2];   // level index of the DoG slice s is s - 1
    int verdict = 2; auto need = [&](double margin, double e) { if (margin < -e) verdict = 0; else if (margin <= e && verdict == 2) verdict = 1; };
    need(fabs(val) - tp, 1e-5 * scale + 4 * err * fabs(g[0] + g[1] + g[2]) + 1e-12); need(det * thr - tr * tr, thr * eD + 4 * fabs(tr) * eA + 1e-6 * tr * tr); if (fabs(tr) > 4 * eA) need(det, eD); else verdict = 1; (void)score;
    for (int i = 0; i < 3; ++i) need(1.5 - fabs(b[i]), 2 * err); need(X, err); need(Y, err); need(w - 1 - X, err); need(h - 1 - Y, err); need(Z + 1, err); need(t.S + 1 - Z, err);
    if (!verdict) continue; double per = pow(2.0, o); k.x = X * per; k.y = Y * per; k.s = Z; k.sigma = sig(t, 0) * pow(2.0, Z / t.S) * per; k.st = verdict == 2 ? 2 : 1; out.push_back(k);
  }
}
VT_CHECK(extrema, 8000, 80000, "at least one keypoint expected") {
  Set t = setup(c, 3, 56); VlSiftFilt *f = vl_sift_new(t.w, t.h, t.O, t.S, t.o0); std::unique_ptr<VlSiftFilt, void (*)(VlSiftFilt *)> own(f, vl_sift_delete); double tp = c.pick({0.0, 0.0, 0.002, 0.01, 0.03}) * t.amp, te = c.pick({10.0, 10.0, 5.0, 2.0, 50.0}); vl_sift_set_peak_thresh(f, tp); vl_sift_set_edge_thresh(f, te); VT_ASSERT(c, vl_sift_get_peak_thresh(f) == tp && vl_sift_get_edge_thresh(f) == te, "thresholds not stored"); c.note("peak %g edge %g", tp, te);
  int e = vl_sift_process_first_octave(f, t.im.data()), total = 0;
  for (; e == VL_ERR_OK; e = vl_sift_process_next_octave(f)) {
    int o = vl_sift_get_octave_index(f), w = vl_sift_get_octave_width(f), h = vl_sift_get_octave_height(f); std::vector<fvec> lv; for (int s = -1; s <= t.S + 1; ++s) { vl_sift_pix *p = vl_sift_get_octave(f, s); lv.emplace_back(p, p + (size_t)w * h); }
    vl_sift_detect(f); for (int s = -1; s <= t.S + 1; ++s) VT_ASSERT(c, !memcmp(lv[s + 1].data(), vl_sift_get_octave(f, s), sizeof(float) * w * h), "detection modified the scale space");
    if (w < 3 || h < 3) { VT_ASSERT(c, vl_sift_get_nkeypoints(f) == 0, "%d keypoints in a %dx%d octave", vl_sift_get_nkeypoints(f), w, h); continue; }
    std::vector<Cand> R; reference(t, lv, w, h, o, tp, te, R); std::vector<VlSiftKeypoint> K(vl_sift_get_keypoints(f), vl_sift_get_keypoints(f) + vl_sift_get_nkeypoints(f)); int loose = 0, must = 0; for (auto &r : R) { if (r.st == 1) ++loose; else ++must; } total += must; if (must) c.nontrivial();
    std::vector<char> used(R.size(), 0); double per = pow(2.0, o);
    for (auto &k : K) { VT_ASSERT(c, k.o == o && k.is >= 0 && k.is <= t.S - 1 && k.ix >= 1 && k.iy >= 1 && k.ix <= w - 2 && k.iy <= h - 2, "keypoint has octave %d, integer position (%d,%d,%d)", k.o, k.ix, k.iy, k.is);
      VT_ASSERT(c, fabs(k.x / per - k.ix) < 1.5001 && fabs(k.y / per - k.iy) < 1.5001 && fabs(k.s - k.is) < 1.5001, "refined position (%g,%g,%g) far from its sample (%d,%d,%d)", k.x / per, k.y / per, (double)k.s, k.ix, k.iy, k.is); VT_ASSERT(c, k.x >= 0 && k.y >= 0 && k.x <= (w - 1) * per + 1e-6 && k.y <= (h - 1) * per + 1e-6, "keypoint (%g,%g) outside the image", k.x, k.y);
      VT_ASSERT(c, fabs(k.sigma - sig(t, 0) * pow(2.0, k.s / t.S) * per) < 1e-4 * k.sigma, "keypoint scale %g inconsistent with level %g of octave %d", k.sigma, k.s, o);
      size_t best = R.size(); for (size_t i = 0; i < R.size() && best == R.size(); ++i) if (!used[i] && R[i].x > -1e8 && fabs(R[i].x - k.x) < 2e-2 * per && fabs(R[i].y - k.y) < 2e-2 * per && fabs(R[i].s - k.s) < 2e-2) best = i;
      if (best < R.size()) { used[best] = 1; VT_ASSERT(c, R[best].st != 2 || fabs(R[best].sigma - k.sigma) <= 2e-2 * k.sigma, "scale of keypoint"); } else { VT_ASSERT(c, loose-- > 0, "octave %d: keypoint (%g,%g) level %g is not a refined extremum passing the thresholds", o, k.x, k.y, (double)k.s); } }
    for (size_t i = 0; i < R.size(); ++i) if (R[i].st == 2) VT_ASSERT(c, used[i], "octave %d: extremum refined to (%g,%g) level %g is missing", o, R[i].x, R[i].y, R[i].s);
    // raising a threshold only removes keypoints
    bool pk = c.b(); if (pk) vl_sift_set_peak_thresh(f, tp + c.pick({0.001, 0.01, 0.05}) * t.amp); else vl_sift_set_edge_thresh(f, 1 + (te - 1) * c.pick({0.9, 0.5, 0.1})); vl_sift_detect(f); int n2 = vl_sift_get_nkeypoints(f); const VlSiftKeypoint *q = vl_sift_get_keypoints(f);
    for (int i = 0; i < n2; ++i) { bool in = false; for (auto &k : K) if (k.x == q[i].x && k.y == q[i].y && k.s == q[i].s) in = true; VT_ASSERT(c, in, "a stricter %s threshold adds keypoint (%g,%g)", pk ? "peak" : "edge", q[i].x, q[i].y); } VT_ASSERT(c, n2 <= (int)K.size(), "a stricter threshold adds keypoints"); vl_sift_set_peak_thresh(f, tp); vl_sift_set_edge_thresh(f, te);
  }
  c.label("%s", total == 0 ? "no keypoint" : total < 5 ? "1-4 keypoints" : total < 500 ? "5-499 keypoints" : "500 keypoints and more");
}
VT_CHECK(many_keypoints, 40, 1000, "more than 500 keypoints in one octave") {
  Set t; t.o0 = -1; t.w = (int)c.i(140, 220); t.h = (int)c.i(140, 220); t.O = 1; t.S = (int)c.pick({3, 5}); t.amp = 255; t.cls = 0; int gx = (int)c.i(5, 7), gy = (int)c.i(5, 7); vt::Stream st = c.stream(); t.im.resize((size_t)t.w * t.h); for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) t.im[x + (size_t)y * t.w] = (float)(20 * st.uni() + ((x % gx == 0 && y % gy == 0) ? st.real(100, 235) : 0)); VlSiftFilt *f = vl_sift_new(t.w, t.h, t.O, t.S, t.o0); std::unique_ptr<VlSiftFilt, void (*)(VlSiftFilt *)> own(f, vl_sift_delete); vl_sift_set_edge_thresh(f, 1e4);
  vl_sift_process_first_octave(f, t.im.data()); int w = vl_sift_get_octave_width(f), h = vl_sift_get_octave_height(f); std::vector<fvec> lv; for (int s = -1; s <= t.S + 1; ++s) { vl_sift_pix *p = vl_sift_get_octave(f, s); lv.emplace_back(p, p + (size_t)w * h); } vl_sift_detect(f); std::vector<Cand> R; reference(t, lv, w, h, t.o0, 0, 1e4, R); int must = 0, may = 0; for (auto &r : R) (r.st == 2 ? must : may)++; int n = vl_sift_get_nkeypoints(f); if (n > 500) c.nontrivial(); c.label("%d00s", n / 100); c.note("%dx%d found %d expected %d + %d", t.w, t.h, n, must, may);
  VT_ASSERT(c, n >= must && n <= must + may, "%d keypoints found, %d to %d expected", n, must, must + may); const VlSiftKeypoint *k = vl_sift_get_keypoints(f); double per = pow(2.0, t.o0); size_t j = 0; for (int i = 0; i < n; ++i) { while (j < R.size() && !(fabs(R[j].x - k[i].x) < 0.02 * per && fabs(R[j].y - k[i].y) < 0.02 * per)) { ++j; } if (j == R.size()) break; ++j; } (void)j;
  size_t hit = 0; for (auto &r : R) if (r.st == 2) for (int i = 0; i < n; ++i) if (fabs(r.x - k[i].x) < 0.02 * per && fabs(r.y - k[i].y) < 0.02 * per && fabs(r.s - k[i].s) < 0.02) { ++hit; break; } VT_ASSERT(c, (int)hit == must, "%d of %d expected keypoints missing", must - (int)hit, must);
}
VT_CHECK(defaults, 4000, 40000, "automatic number of octaves") {
  int w = (int)c.small(1, 300), h = (int)c.small(1, 300), o0 = (int)c.i(-2, 3), S = (int)c.i(1, 6); if (o0 == -2 && w * h > 10000) c.discard(); c.nontrivial(); c.note("%dx%d first octave %d levels %d", w, h, o0, S); VlSiftFilt *f = vl_sift_new(w, h, -1, S, o0); std::unique_ptr<VlSiftFilt, void (*)(VlSiftFilt *)> own(f, vl_sift_delete);
  int l2 = 0; while ((2 << l2) <= std::min(w, h)) ++l2; int want = std::max(l2 - o0 - 3, 1); VT_ASSERT(c, vl_sift_get_noctaves(f) == want, "default number of octaves %d, expected %d", vl_sift_get_noctaves(f), want); VT_ASSERT(c, vl_sift_get_nlevels(f) == S && vl_sift_get_octave_first(f) == o0, "levels or first octave not stored"); VT_ASSERT(c, vl_sift_get_peak_thresh(f) == 0 && vl_sift_get_edge_thresh(f) == 10 && vl_sift_get_norm_thresh(f) == 0 && vl_sift_get_magnif(f) == 3 && vl_sift_get_window_size(f) == 2, "default parameters differ from the documented ones");
  if (w * h < 2500) { fvec im((size_t)w * h, 1.f); int n = 0, e; for (e = vl_sift_process_first_octave(f, im.data()); e == VL_ERR_OK && n < 99; e = vl_sift_process_next_octave(f)) { ++n; vl_sift_detect(f); VT_ASSERT(c, vl_sift_get_nkeypoints(f) == 0, "keypoints in a constant image"); } VT_ASSERT(c, e == VL_ERR_EOF && n == want, "%d octaves processed, %d announced", n, want); }
}
int main(int a, char **b) { return vt::vt_main(a, b); }
