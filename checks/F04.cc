// F04: dense SIFT.
#include "feat.h"
#include "vl_all.h"
static const double PI = 3.14159265358979323846;
typedef std::unique_ptr<VlDsiftFilter, void (*)(VlDsiftFilter *)> Own;
struct Cfg { int w, h, sx, sy, x1, y1, x2, y2; VlDsiftDescriptorGeometry g; bool flat, bounded; double win; };
static Cfg draw(vt::Ctx &c, int w, int h) { Cfg k; k.w = w; k.h = h; k.sx = (int)c.small(1, 9); k.sy = (int)c.small(1, 9); k.g.numBinT = (int)c.pick({8, 4, 1, 2, 3, 12}); k.g.numBinX = (int)c.i(1, 5); k.g.numBinY = (int)c.i(1, 5); k.g.binSizeX = (int)c.i(1, 8); k.g.binSizeY = (int)c.i(1, 8); k.flat = c.b(); k.win = c.pick({2.0, 1.0, 0.5, 4.0}); k.bounded = c.b(); k.x1 = 0; k.y1 = 0; k.x2 = w - 1; k.y2 = h - 1; if (k.bounded) { k.x1 = (int)c.i(0, w - 1); k.x2 = (int)c.i(k.x1, w - 1); k.y1 = (int)c.i(0, h - 1); k.y2 = (int)c.i(k.y1, h - 1); } if (!c.chance(1, 8)) { auto fit = [](int &n, int &b, int range) { while (b > 1 && (n - 1) * b > range) --b; while (n > 1 && (n - 1) * b > range) --n; }; fit(k.g.numBinX, k.g.binSizeX, k.x2 - k.x1); fit(k.g.numBinY, k.g.binSizeY, k.y2 - k.y1); } return k; }
static void apply(VlDsiftFilter *f, const Cfg &k) { vl_dsift_set_steps(f, k.sx, k.sy); vl_dsift_set_bounds(f, k.x1, k.y1, k.x2, k.y2); vl_dsift_set_geometry(f, &k.g); vl_dsift_set_flat_window(f, k.flat); vl_dsift_set_window_size(f, k.win); }
static void describe(vt::Ctx &c, const Cfg &k) { c.note("%dx%d step %d,%d bounds %d,%d..%d,%d bins %dx%dx%d of %dx%d %s window %g", k.w, k.h, k.sx, k.sy, k.x1, k.y1, k.x2, k.y2, k.g.numBinT, k.g.numBinX, k.g.numBinY, k.g.binSizeX, k.g.binSizeY, k.flat ? "flat" : "Gaussian", k.win); }
struct Grad { dvec mod, ang; };
static Grad gradient(const fvec &im, int w, int h) { Grad G; G.mod.resize(im.size()); G.ang.resize(im.size()); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { auto P = [&](int X, int Y) { return im[X + (size_t)Y * w]; };
    float gx = w == 1 ? 0 : x == 0 ? P(1, y) - P(0, y) : x == w - 1 ? P(x, y) - P(x - 1, y) : 0.5F * (P(x + 1, y) - P(x - 1, y)), gy = h == 1 ? 0 : y == 0 ? P(x, 1) - P(x, 0) : y == h - 1 ? P(x, y) - P(x, y - 1) : 0.5F * (P(x, y + 1) - P(x, y - 1)); G.mod[x + (size_t)y * w] = vl_fast_sqrt_f(gx * gx + gy * gy); G.ang[x + (size_t)y * w] = vl_mod_2pi_f(vl_fast_atan2_f(gy, gx)); } return G; }
static void verify(vt::Ctx &c, VlDsiftFilter *f, const Cfg &k, const fvec &im) {
  const VlDsiftDescriptorGeometry &g = k.g; Grad G = gradient(im, k.w, k.h); int fx = g.binSizeX * (g.numBinX - 1), fy = g.binSizeY * (g.numBinY - 1), D = g.numBinT * g.numBinX * g.numBinY; std::vector<std::pair<int, int>> grid; for (int y = k.y1; y + fy <= k.y2; y += k.sy) for (int x = k.x1; x + fx <= k.x2; x += k.sx) grid.push_back({x, y});
  VT_ASSERT(c, vl_dsift_get_descriptor_size(f) == D, "descriptor size %d, expected %d", vl_dsift_get_descriptor_size(f), D); VT_ASSERT(c, vl_dsift_get_keypoint_num(f) == (int)grid.size(), "%d keypoints, the grid has %zu", vl_dsift_get_keypoint_num(f), grid.size()); c.label("%s", grid.empty() ? "empty grid" : grid.size() == 1 ? "one key point" : "several key points");
  const VlDsiftKeypoint *K = vl_dsift_get_keypoints(f); const float *d = vl_dsift_get_descriptors(f); dvec ref(D);
  auto mean = [&](int size, int num, int bin) { double s = 0, dl = size * (bin - 0.5 * (num - 1)), sg = size * k.win; for (int u = -size + 1; u <= size - 1; ++u) s += exp(-0.5 * (u + dl) * (u + dl) / (sg * sg)); return s / (2 * size - 1); };
  for (size_t n = 0; n < grid.size(); ++n) { int X = grid[n].first, Y = grid[n].second; double cx = X + 0.5 * fx, cy = Y + 0.5 * fy; VT_ASSERT(c, K[n].x == cx && K[n].y == cy, "key point %zu at (%g,%g), expected (%g,%g)", n, K[n].x, K[n].y, cx, cy); std::fill(ref.begin(), ref.end(), 0.0); double mass = 0;
    for (int by = 0; by < g.numBinY; ++by) for (int bx = 0; bx < g.numBinX; ++bx) { int px = X + bx * g.binSizeX, py = Y + by * g.binSizeY; double *h = &ref[g.numBinT * (bx + by * g.numBinX)]; double wm = k.flat ? mean(g.binSizeX, g.numBinX, bx) * mean(g.binSizeY, g.numBinY, by) : 1;
      for (int v = -g.binSizeY + 1; v < g.binSizeY; ++v) for (int u = -g.binSizeX + 1; u < g.binSizeX; ++u) { double wt = wm * (1 - fabs(u) / g.binSizeX) * (1 - fabs(v) / g.binSizeY); if (!k.flat) { double zx = (px + u - cx) / (g.binSizeX * k.win), zy = (py + v - cy) / (g.binSizeY * k.win); wt *= exp(-0.5 * (zx * zx + zy * zy)); } size_t q = std::min(k.w - 1, std::max(0, px + u)) + (size_t)std::min(k.h - 1, std::max(0, py + v)) * k.w; double t = G.ang[q] * g.numBinT / (2 * PI); int b = (int)floor(t); double r = t - b; h[b % g.numBinT] += wt * (1 - r) * G.mod[q]; h[(b + 1) % g.numBinT] += wt * r * G.mod[q]; } }
    double n2 = 0; for (double v : ref) { mass += v; n2 += v * v; } double want = mass / ((double)(fx + 1) * (fy + 1)); VT_ASSERT(c, fabs(K[n].norm - want) <= 1e-4 * want + (k.flat ? 1e-5 : 1e-6) * 255, "norm of key point %zu is %g, expected %g", n, K[n].norm, want); double nm = sqrt(n2); const float *q = d + n * D; for (int i = 0; i < D; ++i) VT_ASSERT(c, q[i] >= -1e-3 && q[i] <= 1.001, "descriptor element %g", (double)q[i]); if (nm < (k.flat ? 2e-2 : 1e-4)) { if (nm == 0 && !k.flat) for (int i = 0; i < D; ++i) VT_ASSERT(c, q[i] == 0, "descriptor of a flat area is not zero"); continue; } c.nontrivial();
    double tol = 1e-4 + 2e-4 * (k.flat ? 255 / nm : 1) + 3e-7 / nm ; double m2 = 0; for (double &v : ref) { v = std::min(v / nm, 0.2); m2 += v * v; } m2 = sqrt(m2); for (int i = 0; i < D; ++i) VT_ASSERT(c, fabs(q[i] - ref[i] / m2) <= tol, "key point %zu (%g,%g) element %d is %.6g, windowed histogram gives %.6g", n, cx, cy, i, (double)q[i], ref[i] / m2); }
}
VT_CHECK(descriptors, 15000, 300000, "at least one key point with non-zero gradients") {
  int w = (int)c.i(1, 34), h = (int)c.i(1, 34); fvec im; int cls = genimg(c, im, w, h, 255); Cfg k = draw(c, w, h); describe(c, k); c.note("%s", imclass(cls)); bool basic = c.chance(1, 5); VlDsiftFilter *f; if (basic) { k.sy = k.sx; k.g.binSizeY = k.g.binSizeX; k.g.numBinT = 8; k.g.numBinX = k.g.numBinY = 4; k.flat = false; k.win = 2; k.x1 = k.y1 = 0; k.x2 = w - 1; k.y2 = h - 1; f = vl_dsift_new_basic(w, h, k.sx, k.g.binSizeX); } else { f = vl_dsift_new(w, h); apply(f, k); } Own own(f, vl_dsift_delete); std::unique_ptr<float[]> t(new float[im.size()]); std::copy(im.begin(), im.end(), t.get());
  int a, b, e, g; vl_dsift_get_steps(f, &a, &b); VT_ASSERT(c, a == k.sx && b == k.sy, "steps"); vl_dsift_get_bounds(f, &a, &b, &e, &g); VT_ASSERT(c, a == k.x1 && b == k.y1 && e == k.x2 && g == k.y2, "bounds"); VT_ASSERT(c, !memcmp(vl_dsift_get_geometry(f), &k.g, sizeof k.g) && !!vl_dsift_get_flat_window(f) == k.flat && vl_dsift_get_window_size(f) == k.win, "parameters not stored");
  vl_dsift_process(f, t.get()); VT_ASSERT(c, !memcmp(t.get(), im.data(), im.size() * 4), "input image modified"); verify(c, f, k, im);
}
VT_CHECK(history, 5000, 80000, "several images and settings on one filter") {
  int w = (int)c.i(2, 26), h = (int)c.i(2, 26), n = (int)c.i(2, 4); VlDsiftFilter *f = vl_dsift_new(w, h); Own own(f, vl_dsift_delete); for (int i = 0; i < n; ++i) { fvec im; genimg(c, im, w, h, 255); Cfg k = draw(c, w, h); describe(c, k); c.note("|"); apply(f, k); vl_dsift_process(f, im.data()); verify(c, f, k, im); if (c.b()) { genimg(c, im, w, h, 255); vl_dsift_process(f, im.data()); verify(c, f, k, im); } }
}
VT_CHECK(transposition, 6000, 100000, "non-zero descriptors") {
  int w = (int)c.i(2, 26), h = (int)c.i(2, 26); fvec im, it; genimg(c, im, w, h, 255); it.resize(im.size()); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) it[y + (size_t)x * h] = im[x + (size_t)y * w]; Cfg k = draw(c, w, h); k.g.numBinT = (int)c.pick({8, 4, 12}); describe(c, k); Cfg t = k; std::swap(t.w, t.h); std::swap(t.sx, t.sy); std::swap(t.x1, t.y1); std::swap(t.x2, t.y2); std::swap(t.g.numBinX, t.g.numBinY); std::swap(t.g.binSizeX, t.g.binSizeY);
  VlDsiftFilter *f = vl_dsift_new(w, h), *g = vl_dsift_new(h, w); Own o1(f, vl_dsift_delete), o2(g, vl_dsift_delete); apply(f, k); apply(g, t); vl_dsift_process(f, im.data()); vl_dsift_process(g, it.data()); int n = vl_dsift_get_keypoint_num(f), D = vl_dsift_get_descriptor_size(f); VT_ASSERT(c, n == vl_dsift_get_keypoint_num(g), "different number of key points on the transposed image"); fvec tr(D);
  for (int i = 0; i < n; ++i) { const VlDsiftKeypoint &p = vl_dsift_get_keypoints(f)[i]; for (int j = 0; j < n; ++j) { const VlDsiftKeypoint &q = vl_dsift_get_keypoints(g)[j]; if (q.x != p.y || q.y != p.x) continue; if (p.norm < 0.05) continue; c.nontrivial(); vl_dsift_transpose_descriptor(tr.data(), vl_dsift_get_descriptors(f) + (size_t)i * D, k.g.numBinT, k.g.numBinX, k.g.numBinY); const float *d = vl_dsift_get_descriptors(g) + (size_t)j * D; for (int b = 0; b < D; ++b) VT_ASSERT(c, fabs(tr[b] - d[b]) < 2.5e-2, "transposed descriptor element %d is %g, descriptor of the transposed image has %g", b, (double)tr[b], (double)d[b]); } }
}
int main(int a, char **b) { return vt::vt_main(a, b); }
