// F01: Gaussian scale spaces.
#include "feat.h"
#include "vl_all.h"
typedef std::unique_ptr<VlScaleSpace, void (*)(VlScaleSpace *)> Own;
static dvec smooth3(const dvec &in, int w, int h, double sigma) {   // support ceil(3 sigma)
  if (w == 0 || h == 0) return in; int W = (int)ceil(3.0 * sigma); if (W <= 0) return in; dvec k(2 * W + 1); double a = 0; for (int j = -W; j <= W; ++j) a += k[j + W] = exp(-0.5 * (j / sigma) * (j / sigma)); for (double &v : k) v /= a; dvec t(in.size()), o(in.size());
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double v = 0; for (int j = -W; j <= W; ++j) v += k[j + W] * in[x + (size_t)std::min(h - 1, std::max(0, y + j)) * w]; t[x + (size_t)y * w] = v; }
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double v = 0; for (int j = -W; j <= W; ++j) v += k[j + W] * t[std::min(w - 1, std::max(0, x + j)) + (size_t)y * w]; o[x + (size_t)y * w] = v; }
  return o; }
static VlScaleSpaceGeometry geometry(vt::Ctx &c, int hi) { VlScaleSpaceGeometry g; memset(&g, 0, sizeof g); g.firstOctave = c.pick({0, 0, -1, 1, -2, 2}); int top = g.firstOctave < -1 ? hi / 2 : hi; g.width = c.i(1, top); g.height = c.i(1, top); g.lastOctave = g.firstOctave + c.i(0, 3); g.octaveResolution = c.i(1, 5); g.octaveFirstSubdivision = c.i(-3, 3); g.octaveLastSubdivision = g.octaveFirstSubdivision + c.i(0, 7); g.baseScale = c.pick({1.6 * 1.26, 1.6, 0.3, 1.0, 0.8}); g.nominalScale = c.pick({0.5, 0.5, 0.0, 1.5, 0.25}); c.note("%zux%zu octaves %d..%d resolution %zu subdivisions %d..%d base %g nominal %g", (size_t)g.width, (size_t)g.height, (int)g.firstOctave, (int)g.lastOctave, (size_t)g.octaveResolution, (int)g.octaveFirstSubdivision, (int)g.octaveLastSubdivision, g.baseScale, g.nominalScale); return g; }
static int osz(int n, int o) { return o < 0 ? n << -o : n >> o; }
static bool same(const VlScaleSpaceGeometry &a, const VlScaleSpaceGeometry &b) { return a.width == b.width && a.height == b.height && a.firstOctave == b.firstOctave && a.lastOctave == b.lastOctave && a.octaveResolution == b.octaveResolution && a.octaveFirstSubdivision == b.octaveFirstSubdivision && a.octaveLastSubdivision == b.octaveLastSubdivision && a.baseScale == b.baseScale && a.nominalScale == b.nominalScale; }
static void compare(vt::Ctx &c, VlScaleSpace *s, const VlScaleSpaceGeometry &g, const fvec &im) {
  int w = (int)g.width, h = (int)g.height; dvec base(im.begin(), im.end()); double mx = vmaxabs(im) + 1e-30, have = g.nominalScale; if (g.firstOctave < 0) for (int k = 0; k < -g.firstOctave; ++k) { base = upsample2(base, w, h); w *= 2; h *= 2; } else if (g.firstOctave > 0) { base = subsample(base, w, h, 1 << g.firstOctave); w >>= g.firstOctave; h >>= g.firstOctave; }
  dvec keep; bool edgy = false; int R = (int)g.octaveResolution, a = (int)g.octaveFirstSubdivision, b = (int)g.octaveLastSubdivision;
  for (int o = (int)g.firstOctave; o <= g.lastOctave; ++o) { double step = pow(2.0, o); auto sg = [&](int s) { return g.baseScale * pow(2.0, o + (double)s / R); }; VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(s, o); w = osz((int)g.width, o); h = osz((int)g.height, o); VT_ASSERT(c, (int)og.width == w && (int)og.height == h && og.step == step, "octave %d is reported as %zux%zu step %g", o, (size_t)og.width, (size_t)og.height, og.step);
    double d2 = sg(a) * sg(a) - have * have; dvec lev = d2 > 0 ? smooth3(base, w, h, sqrt(d2) / step) : base; int keepAt = std::min(a + R, b); edgy = edgy || (d2 > 0 && fabs(3 * sqrt(d2) / step - floor(3 * sqrt(d2) / step + 0.5)) < 1e-6);   // support width on a rounding boundary
    for (int q = a; q <= b; ++q) { if (q > a) { double d = sqrt(sg(q) * sg(q) - sg(q - 1) * sg(q - 1)) / step; if (fabs(3 * d - floor(3 * d + 0.5)) < 1e-6) edgy = true; lev = smooth3(lev, w, h, d); } VT_ASSERT(c, fabs(vl_scalespace_get_level_sigma(s, o, q) - sg(q)) <= 1e-12 * sg(q), "sigma of level (%d,%d)", o, q); const float *p = vl_scalespace_get_level(s, o, q); VT_ASSERT(c, p == vl_scalespace_get_level_const(s, o, q), "const accessor"); double tol = edgy ? 2e-2 : 2e-5; for (int i = 0; i < w * h; ++i) VT_ASSERT(c, fabs(p[i] - lev[i]) <= tol * mx, "octave %d level %d pixel (%d,%d) of %dx%d is %.8g, smoothing gives %.8g", o, q, i % w, i / w, w, h, (double)p[i], lev[i]); if (q == keepAt) keep = lev; }
    base = subsample(keep, w, h, 2); have = sg(keepAt); if (have < g.nominalScale && 0) have = g.nominalScale; }
}
VT_CHECK(levels, 15000, 200000, "octave larger than one pixel, image not constant") {
  VlScaleSpaceGeometry g = geometry(c, 36); bool def = c.chance(1, 6); if (def) { g = vl_scalespace_get_default_geometry(g.width, g.height); c.note("default geometry"); } fvec im; int cls = genimg(c, im, (int)g.width, (int)g.height, c.pick({255.0, 1.0})); VlScaleSpace *s = def ? vl_scalespace_new(g.width, g.height) : vl_scalespace_new_with_geometry(g); VT_ASSERT(c, s, "no scale space for a valid geometry"); Own own(s, vl_scalespace_delete); VT_ASSERT(c, same(vl_scalespace_get_geometry(s), g), "geometry not stored"); if (cls != 6 && osz((int)g.width, (int)g.firstOctave) > 1 && osz((int)g.height, (int)g.firstOctave) > 1) c.nontrivial(); c.label("first octave %d", (int)g.firstOctave); c.label("%s", g.octaveLastSubdivision - g.octaveFirstSubdivision < (vl_index)g.octaveResolution ? "subdivisions below one octave" : "one octave or more"); if (g.lastOctave < 0) c.label("last octave negative");
  if (c.chance(1, 4)) { fvec o; genimg(c, o, (int)g.width, (int)g.height, 255); vl_scalespace_put_image(s, o.data()); } std::unique_ptr<float[]> tight(new float[im.size()]); std::copy(im.begin(), im.end(), tight.get()); vl_scalespace_put_image(s, tight.get()); VT_ASSERT(c, !memcmp(tight.get(), im.data(), im.size() * 4), "input image modified"); compare(c, s, g, im);
}
VT_CHECK(default_geometry, 20000, 200000, "any size") {
  int w = (int)c.small(1, 100000), h = (int)c.small(1, 100000); VlScaleSpaceGeometry g = vl_scalespace_get_default_geometry(w, h); c.nontrivial(); c.note("%dx%d", w, h); int l = 0; while ((2 << l) <= std::min(w, h)) ++l; VT_ASSERT(c, (int)g.width == w && (int)g.height == h && g.firstOctave == 0 && g.octaveResolution == 3 && g.octaveFirstSubdivision == 0 && g.octaveLastSubdivision == 2 && fabs(g.baseScale - 1.6 * cbrt(2.0)) < 1e-9 && g.nominalScale == 0.5, "default geometry fields"); VT_ASSERT(c, g.lastOctave == std::max(l - 3, 0), "last octave %d for a %dx%d image", (int)g.lastOctave, w, h);
}
VT_CHECK(geometry_equality, 20000, 200000, "geometries that differ in one field") {
  VlScaleSpaceGeometry a = geometry(c, 40), b = a; int f = (int)c.i(0, 9); switch (f) { case 1: b.width++; break; case 2: b.height++; break; case 3: b.firstOctave--; break; case 4: b.lastOctave++; break; case 5: b.octaveResolution++; break; case 6: b.octaveFirstSubdivision--; break; case 7: b.octaveLastSubdivision++; break; case 8: b.baseScale *= 1.5; break; case 9: b.nominalScale += 0.25; break; } if (f) c.nontrivial(); c.label("field %d", f); VT_ASSERT(c, !!vl_scalespacegeometry_is_equal(a, b) == (f == 0) && !!vl_scalespacegeometry_is_equal(b, a) == (f == 0), "geometries %s but comparison says otherwise (field %d)", f ? "differ" : "are equal", f);
}
VT_CHECK(copies, 2500, 40000, "deep copy of a computed scale space") {
  VlScaleSpaceGeometry g = geometry(c, 24); fvec im, im2; genimg(c, im, (int)g.width, (int)g.height, 255); genimg(c, im2, (int)g.width, (int)g.height, 255); VlScaleSpace *s = vl_scalespace_new_with_geometry(g); Own o1(s, vl_scalespace_delete); vl_scalespace_put_image(s, im.data()); VlScaleSpace *d = vl_scalespace_new_copy(s); Own o2(d, vl_scalespace_delete); VlScaleSpace *h = vl_scalespace_new_shallow_copy(s); Own o3(h, vl_scalespace_delete); VT_ASSERT(c, d && h && same(vl_scalespace_get_geometry(d), g) && same(vl_scalespace_get_geometry(h), g), "copy has another geometry"); c.nontrivial();
  bool kill = c.b(); if (kill) { o1.reset(); } else vl_scalespace_put_image(s, im2.data()); compare(c, d, g, im); vl_scalespace_put_image(h, im2.data()); compare(c, h, g, im2); compare(c, d, g, im); if (!kill) { vl_scalespace_put_image(d, im.data()); compare(c, s, g, im2); }
}
int main(int a, char **b) { return vt::vt_main(a, b); }
