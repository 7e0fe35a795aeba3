// F09: local binary patterns.
#include "feat.h"
#include "vl_all.h"
typedef std::unique_ptr<VlLbp, void (*)(VlLbp *)> Own;
// documented quantisation: one bin per circular run of ones (start i, length j), one for 0/8 ones, one for the rest
static int quant(unsigned s) { int t = 0; for (int b = 0; b < 8; ++b) t += ((s >> b) & 1) != ((s >> ((b + 1) % 8)) & 1); if (t == 0) return 56; if (t > 2) return 57; int ones = __builtin_popcount(s), start = 0; while (!((s >> start) & 1) || ((s >> ((start + 7) % 8)) & 1)) ++start; return start * 7 + ones - 1; }
static dvec reference(const fvec &p, int w, int h, int cell) {
  static const int DX[8] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[8] = {0, 1, 1, 1, 0, -1, -1, -1}; int W = w / cell, H = h / cell; size_t S = (size_t)W * H; dvec o(58 * S, 0.0);
  for (int y = 1; y < h - 1; ++y) for (int x = 1; x < w - 1; ++x) { unsigned s = 0; for (int b = 0; b < 8; ++b) if (p[x + DX[b] + (size_t)(y + DY[b]) * w] > p[x + (size_t)y * w]) s |= 1u << b; int q = quant(s); double u = (x + 0.5) / cell - 0.5, v = (y + 0.5) / cell - 0.5; for (int Y = (int)floor(v); Y <= (int)floor(v) + 1; ++Y) for (int X = (int)floor(u); X <= (int)floor(u) + 1; ++X) if (X >= 0 && Y >= 0 && X < W && Y < H) o[S * q + X + (size_t)Y * W] += std::max(0.0, 1 - fabs(u - X)) * std::max(0.0, 1 - fabs(v - Y)); }
  for (size_t s = 0; s < S; ++s) { double t = 0; for (int d = 0; d < 58; ++d) t += o[S * d + s]; for (int d = 0; d < 58; ++d) o[S * d + s] = t > 0 ? sqrt(o[S * d + s] / t) : 0; } return o; }
static fvec draw(vt::Ctx &c, int &w, int &h, int &cell) { cell = (int)c.pick({4, 8, 1, 2, 3, 5, 7, 16}); w = (int)c.i(1, 30); h = (int)c.i(1, 30); fvec p; int cls = genimg(c, p, w, h, c.pick({1.0, 255.0, 1e-3})); if (c.chance(1, 6)) for (float &v : p) v = -v; c.note("image %dx%d cell %d %s", w, h, cell, imclass(cls)); return p; }
VT_CHECK(definition, 40000, 1200000, "at least one cell with a non-zero histogram") {
  int w, h, cell; fvec p = draw(c, w, h, cell); VlLbp *l = vl_lbp_new(VlLbpUniform, VL_FALSE); Own own(l, vl_lbp_delete); VT_ASSERT(c, vl_lbp_get_dimension(l) == 58, "dimension %zu", (size_t)vl_lbp_get_dimension(l)); size_t S = (size_t)(w / cell) * (h / cell), N = 58 * S; std::unique_ptr<float[]> o(new float[N]), in(new float[p.size()]); std::fill(o.get(), o.get() + N, NAN); std::copy(p.begin(), p.end(), in.get()); vl_lbp_process(l, o.get(), in.get(), w, h, cell); VT_ASSERT(c, !memcmp(in.get(), p.data(), p.size() * 4), "image modified"); dvec r = reference(p, w, h, cell);
  for (size_t i = 0; i < N; ++i) { if (r[i] > 0) c.nontrivial(); // square roots amplify rounding near zero
    VT_ASSERT(c, fabs(o[i] * (double)o[i] - r[i] * r[i]) < 2e-6 && fabs(o[i] - r[i]) < 2e-3, "cell %zu bin %zu is %.8g, definition gives %.8g", i % S, i / S, (double)o[i], r[i]); }
  for (size_t s = 0; s < S; ++s) { double t = 0; for (int d = 0; d < 58; ++d) t += (double)o[S * d + s] * o[S * d + s]; VT_ASSERT(c, t == 0 || fabs(t - 1) < 1e-4, "squared norm %g", t); }
}
VT_CHECK(transposed, 20000, 400000, "at least one cell with a non-zero histogram") {
  int w, h, cell; fvec p = draw(c, w, h, cell), t(p.size()); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) t[y + (size_t)x * h] = p[x + (size_t)y * w]; VlLbp *a = vl_lbp_new(VlLbpUniform, VL_FALSE), *b = vl_lbp_new(VlLbpUniform, VL_TRUE); Own oa(a, vl_lbp_delete), ob(b, vl_lbp_delete); int W = w / cell, H = h / cell; size_t S = (size_t)W * H; fvec x(58 * S), y(58 * S); vl_lbp_process(a, x.data(), p.data(), w, h, cell); vl_lbp_process(b, y.data(), t.data(), h, w, cell);
  for (int d = 0; d < 58; ++d) for (int v = 0; v < H; ++v) for (int u = 0; u < W; ++u) { double e = x[S * d + u + (size_t)v * W], g = y[S * d + v + (size_t)u * H]; if (e > 0) c.nontrivial(); VT_ASSERT(c, fabs(e * e - g * g) < 2e-6, "cell (%d,%d) bin %d: transposed object on the transposed image gives %g, plain object %g", u, v, d, g, e); }
}
VT_CHECK(patterns, 20000, 400000, "always: one 3x3 pattern placed at a random pixel") {
  // single pattern in isolation: the histogram of a 3x3 image has one non-zero element, at the documented bin; monotone intensity changes do not matter
  unsigned s = (unsigned)c.i(0, 255); static const int X[8] = {2, 2, 1, 0, 0, 0, 1, 2}, Y[8] = {1, 2, 2, 2, 1, 0, 0, 0}; fvec p(9, 0.f); double base = c.real(-5, 5), d = exp(c.real(-3, 3)); bool strict = c.b(); p[4] = (float)base; for (int b = 0; b < 8; ++b) p[X[b] + 3 * Y[b]] = (float)(base + ((s >> b) & 1 ? d : strict ? -d : 0)); bool tr = c.b(); if (tr) for (int y = 0; y < 3; ++y) for (int x = 0; x < y; ++x) std::swap(p[x + 3 * y], p[y + 3 * x]); VlLbp *l = vl_lbp_new(VlLbpUniform, tr); Own own(l, vl_lbp_delete); fvec o(58); vl_lbp_process(l, o.data(), p.data(), 3, 3, 3); c.nontrivial(); c.note("pattern %02x%s", s, tr ? " transposed" : ""); for (int b = 0; b < 58; ++b) VT_ASSERT(c, fabs(o[b] - (b == quant(s))) < 1e-5, "bin %d is %g, pattern belongs to bin %d", b, (double)o[b], quant(s));
}
int main(int a, char **b) { return vt::vt_main(a, b); }
