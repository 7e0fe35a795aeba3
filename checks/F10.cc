// F10: maximally stable extremal regions.
#include "feat.h"
#include "vl_all.h"
#include <map>
#include <set>
typedef std::vector<int> ivec; typedef std::vector<vl_uint8> img8; typedef std::unique_ptr<VlMserFilt, void (*)(VlMserFilt *)> Own;
struct Cfg { ivec dims; int nel; int delta; double maxA, minA, maxV, minD; bool defaults; };
static Cfg draw(vt::Ctx &c, img8 &im) {
  Cfg k; int nd = (int)c.pick({2, 2, 2, 1, 3, 4}); k.nel = 1; int cap = nd == 1 ? 40 : nd == 2 ? 14 : nd == 3 ? 6 : 4; for (int d = 0; d < nd; ++d) { k.dims.push_back((int)c.i(1, cap)); k.nel *= k.dims.back(); }
  im.resize(k.nel); int mode = (int)c.pick({0, 1, 2, 3, 4, 5}); vt::Stream s = c.stream(); c.note("%dD %d pixels mode %d", nd, k.nel, mode); int lv = 2 + (int)s.below(8), base = (int)s.below(200); std::vector<ivec> ctr; dvec cw; for (int i = 0; i < 3; ++i) { ivec p; for (int d : k.dims) p.push_back((int)s.below(d)); ctr.push_back(p); cw.push_back(s.real(5, 60)); }
  for (int i = 0; i < k.nel; ++i) { ivec x; int t = i; for (int d : k.dims) { x.push_back(t % d); t /= d; } double f = 1e9; for (int j = 0; j < 3; ++j) { double r = 0; for (int d = 0; d < nd; ++d) r += (x[d] - ctr[j][d]) * (double)(x[d] - ctr[j][d]); f = std::min(f, cw[j] * sqrt(r) + 10 * j); }
    int v; switch (mode) { case 0: v = (int)s.below(256); break; case 1: v = base + (int)s.below(lv); break; case 2: v = (int)std::min(255.0, f); break; case 3: v = (int)std::min(255.0, f + s.below(4)); break; case 4: v = 255 - (int)std::min(255.0, f / 2); break; default: { int g = 0; for (int y : x) g += y / 3; v = (g * 37 + (int)s.below(2)) % 256; } } im[i] = (vl_uint8)std::min(255, v); }
  k.defaults = c.chance(1, 5); k.delta = 5; k.maxA = 0.75; k.minA = 3.0 / k.nel; k.maxV = 0.25; k.minD = 0.2; if (!k.defaults) { k.delta = (int)c.pick({5, 1, 2, 0, 10, 30, 100, 255}); k.maxA = c.pick({0.75, 1.0, 0.5, 0.9}); k.minA = c.pick({0.0, 3.0 / k.nel, 0.05, 0.2}); k.maxV = c.pick({0.25, 1.0, 0.5, 3.0, 1e3}); k.minD = c.pick({0.2, 0.0, 0.5, 0.7, 1.0}); } c.note("delta %d area %g..%g variation %g diversity %g", k.delta, k.minA, k.maxA, k.maxV, k.minD); return k; }
static void adjacent(const Cfg &k, int i, ivec &out) { out.clear(); int nd = (int)k.dims.size(); ivec x; int t = i; for (int d : k.dims) { x.push_back(t % d); t /= d; } int n3 = 1; for (int d = 0; d < nd; ++d) n3 *= 3; for (int q = 0; q < n3; ++q) { int t = q, j = 0, st = 1; bool ok = true, self = true; for (int d = 0; d < nd; ++d) { int o = t % 3 - 1; t /= 3; if (o) self = false; int y = x[d] + o; if (y < 0 || y >= k.dims[d]) ok = false; j += st * y; st *= k.dims[d]; } if (ok && !self) out.push_back(j); } }
static ivec component(const Cfg &k, const img8 &im, int seed, int level) { std::vector<char> in(k.nel, 0); ivec st{seed}, out, nb; in[seed] = 1; while (!st.empty()) { int i = st.back(); st.pop_back(); out.push_back(i); adjacent(k, i, nb); for (int j : nb) if (!in[j] && im[j] <= level) { in[j] = 1; st.push_back(j); } } std::sort(out.begin(), out.end()); return out; }
struct Region { ivec px; int value, parent; double var; bool st; };
// exhaustive component tree: distinct extremal regions with the smallest level at which each appears
static std::vector<Region> tree(const Cfg &k, const img8 &im) {
  std::vector<Region> r; ivec cur(k.nel, -1); std::set<int> lv(im.begin(), im.end());
  for (int l : lv) { std::vector<char> done(k.nel, 0); ivec nw = cur; for (int i = 0; i < k.nel; ++i) if (im[i] == l && !done[i]) { Region g; g.px = component(k, im, i, l); g.value = l; g.parent = -1; g.st = true; g.var = 0; for (int j : g.px) { done[j] = 1; if (cur[j] >= 0 && r[cur[j]].parent < 0) r[cur[j]].parent = (int)r.size(); nw[j] = (int)r.size(); } r.push_back(g); } cur = nw; }
  return r; }
static bool decide(vt::Ctx &c, const Cfg &k, std::vector<Region> &r, int st[6]) {
  int n = (int)r.size(); for (int i = 0; i < 6; ++i) st[i] = 0; st[0] = n;
  for (auto &g : r) { const Region *t = &g; while (t->parent >= 0 && r[t->parent].value <= g.value + k.delta) t = &r[t->parent]; g.var = (double)(t->px.size() - g.px.size()) / g.px.size(); }
  for (int i = 0; i < n; ++i) { int p = r[i].parent; if (p < 0) { r[i].st = false; continue; } if (r[p].value > r[i].value + 1) continue; if (r[i].var < r[p].var) r[p].st = false; else r[i].st = false; }
  for (auto &g : r) st[1] += !g.st;
  for (int i = n - 1; i >= 0; --i) { Region &g = r[i]; if (!g.st) continue; double A = (double)g.px.size(), hi = k.maxA * k.nel, lo = k.minA * k.nel; if ((A > hi) != (A > (double)((float)k.maxA * (float)k.nel)) || (A < lo) != (A < (double)((float)k.minA * (float)k.nel)) || (fabs(A - lo) < 1e-4 && A < lo) || (fabs(A - hi) < 1e-4 && A > hi)) return false;
    if (g.var >= k.maxV) { ++st[2]; g.st = false; continue; } if (A > hi) { ++st[3]; g.st = false; continue; } if (A < lo) { ++st[4]; g.st = false; continue; }
    if (k.minD < 1) { int p = g.parent; while (p >= 0 && !r[p].st && r[p].parent >= 0) p = r[p].parent; if (p >= 0) { double pa = (double)r[p].px.size(), d = (pa - A) / pa; if (d != k.minD && fabs(d - k.minD) < 1e-6) return false; if (d < k.minD) { ++st[5]; g.st = false; continue; } } } }
  return true; }
static void setup(VlMserFilt *f, const Cfg &k, vt::Ctx &c) { if (!k.defaults) { vl_mser_set_delta(f, k.delta); vl_mser_set_max_area(f, k.maxA); vl_mser_set_min_area(f, k.minA); vl_mser_set_max_variation(f, k.maxV); vl_mser_set_min_diversity(f, k.minD); } VT_ASSERT(c, vl_mser_get_delta(f) == k.delta && vl_mser_get_max_area(f) == k.maxA && vl_mser_get_min_area(f) == k.minA && vl_mser_get_max_variation(f) == k.maxV && vl_mser_get_min_diversity(f) == k.minD, "parameters not as set or documented"); }
static ivec seeds(VlMserFilt *f) { return ivec(vl_mser_get_regions(f), vl_mser_get_regions(f) + vl_mser_get_regions_num(f)); }
VT_CHECK(definition, 12000, 400000, "at least one region returned") {
  img8 im; Cfg k = draw(c, im); VlMserFilt *f = vl_mser_new((int)k.dims.size(), k.dims.data()); Own own(f, vl_mser_delete); setup(f, k, c); int st[6]; std::vector<Region> r = tree(k, im); if (!decide(c, k, r, st)) c.discard(); std::unique_ptr<vl_uint8[]> in(new vl_uint8[k.nel]); std::copy(im.begin(), im.end(), in.get());
  int before = (int)c.pick({0, 0, 1, 2}); for (int b = 0; b < before; ++b) { vt::Stream s = c.stream(); img8 q(k.nel); int m = 1 + (int)s.below(256); for (auto &v : q) v = (vl_uint8)s.below(m); vl_mser_process(f, q.data()); if (s.below(2)) vl_mser_ell_fit(f); }
  vl_mser_process(f, in.get()); VT_ASSERT(c, std::equal(im.begin(), im.end(), in.get()), "image modified"); ivec sd = seeds(f); std::set<ivec> got, want; for (int s : sd) { VT_ASSERT(c, s >= 0 && s < k.nel, "seed %d", s); VT_ASSERT(c, got.insert(component(k, im, s, im[s])).second, "region of seed %d returned twice", s); } for (auto &g : r) if (g.st) want.insert(g.px); if (!want.empty()) c.nontrivial();
  for (auto &g : want) VT_ASSERT(c, got.count(g), "maximally stable region of %zu pixels at level %d (first pixel %d) missing; %zu regions returned, %zu expected", g.size(), im[*std::max_element(g.begin(), g.end(), [&](int a, int b) { return im[a] < im[b]; })], g[0], got.size(), want.size()); VT_ASSERT(c, got.size() == want.size(), "%zu regions returned, %zu expected", got.size(), want.size());
  VlMserStats const *q = vl_mser_get_stats(f); VT_ASSERT(c, q->num_extremal == st[0] && q->num_unstable == st[1] && q->num_abs_unstable == st[2] && q->num_too_big == st[3] && q->num_too_small == st[4] && q->num_duplicates == st[5], "statistics %d %d %d %d %d %d, expected %d %d %d %d %d %d", q->num_extremal, q->num_unstable, q->num_abs_unstable, q->num_too_big, q->num_too_small, q->num_duplicates, st[0], st[1], st[2], st[3], st[4], st[5]);
  c.label(before ? "filter used before" : "new filter");
  // ellipsoids
  vl_mser_ell_fit(f); int nd = (int)k.dims.size(), dof = nd + nd * (nd + 1) / 2; VT_ASSERT(c, (int)vl_mser_get_ell_dof(f) == dof && vl_mser_get_ell_num(f) == sd.size(), "%zu ellipsoids of %zu elements, expected %zu of %d", (size_t)vl_mser_get_ell_num(f), (size_t)vl_mser_get_ell_dof(f), sd.size(), dof); if (c.b()) vl_mser_ell_fit(f); VT_ASSERT(c, seeds(f) == sd, "fitting changes the regions");
  for (size_t i = 0; i < sd.size(); ++i) { ivec px = component(k, im, sd[i], im[sd[i]]); dvec mu(nd, 0.0); std::vector<dvec> cv(nd, dvec(nd, 0.0)); std::vector<ivec> X; for (int p : px) { ivec x; int t = p; for (int d : k.dims) { x.push_back(t % d); t /= d; } X.push_back(x); for (int d = 0; d < nd; ++d) mu[d] += x[d] / (double)px.size(); } for (auto &x : X) for (int a = 0; a < nd; ++a) for (int b = 0; b < nd; ++b) cv[a][b] += (x[a] - mu[a]) * (x[b] - mu[b]) / px.size(); float const *e = vl_mser_get_ell(f) + i * dof; for (int d = 0; d < nd; ++d) VT_ASSERT(c, fabs(e[d] - mu[d]) < 1e-4, "region %zu mean[%d] is %g, expected %g", i, d, (double)e[d], mu[d]); int q = nd; for (int b = 0; b < nd; ++b) for (int a = 0; a <= b; ++a, ++q) VT_ASSERT(c, fabs(e[q] - cv[a][b]) < 2e-3, "region %zu covariance (%d,%d) is %g, expected %g", i, a, b, (double)e[q], cv[a][b]); }
}
VT_CHECK(reprocessing, 8000, 200000, "at least one region returned") {
  img8 im; Cfg k = draw(c, im); VlMserFilt *f = vl_mser_new((int)k.dims.size(), k.dims.data()), *g = vl_mser_new((int)k.dims.size(), k.dims.data()); Own own(f, vl_mser_delete), own2(g, vl_mser_delete); setup(f, k, c); setup(g, k, c); vl_mser_process(f, im.data()); ivec a = seeds(f); vl_mser_ell_fit(f); fvec ea(vl_mser_get_ell(f), vl_mser_get_ell(f) + (a.empty() ? 0 : vl_mser_get_ell_dof(f) * a.size()));
  vt::Stream s = c.stream(); int m = 1 + (int)s.below(256); img8 q(k.nel); for (auto &v : q) v = (vl_uint8)s.below(m); vl_mser_process(g, q.data()); if (s.below(2)) vl_mser_ell_fit(g); vl_mser_process(g, im.data()); ivec b = seeds(g); if (!a.empty()) c.nontrivial(); VT_ASSERT(c, a.size() == b.size(), "a new filter returns %zu regions, a used one %zu", a.size(), b.size()); for (size_t i = 0; i < a.size(); ++i) VT_ASSERT(c, a[i] == b[i], "seed %zu is %d with a new filter, %d with a used one", i, a[i], b[i]); vl_mser_ell_fit(g); VT_ASSERT(c, ea == fvec(vl_mser_get_ell(g), vl_mser_get_ell(g) + (a.empty() ? 0 : vl_mser_get_ell_dof(g) * a.size())), "ellipsoids depend on earlier images");
}
int main(int a, char **b) { return vt::vt_main(a, b); }
