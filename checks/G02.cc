// G02: SLIC superpixels.
#include "feat.h"
#include "vl_all.h"
typedef std::vector<vl_uint32> seg; typedef std::vector<int> ivec;
struct Cfg { int w, h, K, rs, mn; double reg; int M() const { return (w + rs - 1) / rs; } int N() const { return (h + rs - 1) / rs; } };
static fvec draw(vt::Ctx &c, Cfg &k, bool noisy) { k.w = (int)c.i(1, 24); k.h = (int)c.i(1, 24); k.K = (int)c.pick({1, 3, 2}); k.rs = (int)c.pick({4, 6, 3, 2, 1, 8, 5, 30}); k.reg = c.pick({0.1, 1.0, 0.01, 0.0, 10.0, 1e3}); k.mn = (int)c.pick({0, 4, 1, 2, 3, 8, 20, 1000}); fvec I; for (int z = 0; z < k.K; ++z) { fvec p; int cls = genimg(c, p, k.w, k.h, c.pick({1.0, 255.0}), noisy && c.b() ? 0 : -1); c.note("%s", imclass(cls)); vt::Stream s = c.stream(); double nz = noisy ? 0.05 : 0; for (float &v : p) v += (float)(nz * s.uni()); I.insert(I.end(), p.begin(), p.end()); } c.note("%dx%d %d channels regions of %d regularizer %g minimum %d", k.w, k.h, k.K, k.rs, k.reg, k.mn); return I; }
static seg run(vt::Ctx &c, const fvec &I, const Cfg &k, int mn, unsigned poison) { size_t n = (size_t)k.w * k.h; std::unique_ptr<float[]> in(new float[I.size()]); std::copy(I.begin(), I.end(), in.get()); std::unique_ptr<vl_uint32[]> s(new vl_uint32[n]); std::fill(s.get(), s.get() + n, poison); vl_slic_segment(s.get(), in.get(), k.w, k.h, k.K, k.rs, (float)k.reg, mn); VT_ASSERT(c, std::equal(I.begin(), I.end(), in.get()), "image modified"); return seg(s.get(), s.get() + n); }
static ivec comps(const seg &s, int w, int h, std::vector<ivec> &members) { ivec id(w * h, -1); members.clear(); for (int p = 0; p < w * h; ++p) if (id[p] < 0) { int n = (int)members.size(); members.push_back(ivec{p}); id[p] = n; for (size_t i = 0; i < members[n].size(); ++i) { int q = members[n][i], x = q % w, y = q / w; auto go = [&](int X, int Y) { if (X < 0 || Y < 0 || X >= w || Y >= h) return; int t = X + Y * w; if (id[t] < 0 && s[t] == s[p]) { id[t] = n; members[n].push_back(t); } }; go(x - 1, y); go(x + 1, y); go(x, y - 1); go(x, y + 1); } } return id; }
VT_CHECK(clean_up, 60000, 500000, "a component below the minimum size was merged") {
  Cfg k; fvec I = draw(c, k, c.b()); int n = k.w * k.h, R = k.M() * k.N(); seg S = run(c, I, k, c.b() ? 0 : 1, 0xdeadbeef), T = run(c, I, k, k.mn, 7), U = run(c, I, k, k.mn, 0xffffffff); VT_ASSERT(c, T == U, "segmentation depends on the previous content of the output");
  for (int p = 0; p < n; ++p) VT_ASSERT(c, S[p] < (unsigned)R && T[p] < (unsigned)R, "label %u or %u of pixel %d, %d regions", S[p], T[p], p, R);
  for (int p = 0; p < n; ++p) { int x = p % k.w, y = p / k.w, rx = (int)(T[p] % k.M()), ry = (int)(T[p] / k.M()); if (k.mn <= 1) { double u = (double)x / k.rs - 0.5, v = (double)y / k.rs - 0.5; VT_ASSERT(c, rx >= floor(u) && rx <= floor(u) + 1 && ry >= floor(v) && ry <= floor(v) + 1, "pixel (%d,%d) carries the label of grid tile (%d,%d)", x, y, rx, ry); } }
  // the documented greedy merging relates the raw and the cleaned segmentation
  std::vector<ivec> m; ivec id = comps(S, k.w, k.h, m); for (size_t i = 0; i < m.size(); ++i) { unsigned l = T[m[i][0]]; for (int p : m[i]) VT_ASSERT(c, T[p] == l, "pixels %d and %d of one component end up in regions %u and %u", m[i][0], p, l, T[p]); if ((int)m[i].size() >= k.mn || i == 0) { VT_ASSERT(c, l == S[m[i][0]], "component of %zu pixels (minimum %d) relabelled from %u to %u", m[i].size(), k.mn, S[m[i][0]], l); continue; } c.nontrivial(); int p = m[i][0], x = p % k.w, y = p / k.w; bool ok = false; auto go = [&](int X, int Y) { if (X < 0 || Y < 0 || X >= k.w || Y >= k.h) return; int q = X + Y * k.w; if (id[q] < (int)i && T[q] == l) ok = true; }; go(x - 1, y); go(x + 1, y); go(x, y - 1); go(x, y + 1); VT_ASSERT(c, ok, "component of %zu pixels at (%d,%d) got label %u, not that of an already visited neighbour", m[i].size(), x, y, l); }
  id = comps(T, k.w, k.h, m); for (auto &q : m) VT_ASSERT(c, (int)q.size() >= k.mn || std::find(q.begin(), q.end(), 0) != q.end(), "region component of %zu pixels at pixel %d is below the minimum %d", q.size(), q[0], k.mn);
}
VT_CHECK(kmeans, 60000, 300000, "decided, more than one region used and at least one update changed an assignment") {
  // independent localised k-means, in double precision; cases with a tie at rounding level anywhere are not judged
  Cfg k; fvec I = draw(c, k, true); int n = k.w * k.h, M = k.M(), N = k.N(), R = M * N, D = 2 + k.K; auto at = [&](int x, int y, int z) { return (double)I[x + (size_t)y * k.w + (size_t)z * n]; }; dvec C((size_t)R * D);
  auto edge = [&](int x, int y) { if (x < 1 || y < 1 || x >= k.w - 1 || y >= k.h - 1) return 0.0; double e = 0; for (int z = 0; z < k.K; ++z) { double a = at(x + 1, y, z) - at(x - 1, y, z), b = at(x, y + 1, z) - at(x, y - 1, z); e += a * a + b * b; } return e; };
  for (int v = 0; v < N; ++v) for (int u = 0; u < M; ++u) { int x = std::min(k.w - 1, (int)floor(k.rs * (u + 0.5) + 0.5)), y = std::min(k.h - 1, (int)floor(k.rs * (v + 0.5) + 0.5)), bx = -1, by = -1; double best = INFINITY; for (int yy = std::max(0, y - 1); yy <= std::min(k.h - 1, y + 1); ++yy) for (int xx = std::max(0, x - 1); xx <= std::min(k.w - 1, x + 1); ++xx) { double e = edge(xx, yy); if (bx >= 0 && e != best && fabs(e - best) < 1e-5 * best) c.discard(); if (e < best) { best = e; bx = xx; by = yy; } } double *q = &C[(size_t)(u + v * M) * D]; q[0] = bx; q[1] = by; for (int z = 0; z < k.K; ++z) q[2 + z] = at(bx, by, z); }
  seg S(n, 0), prev; double pe = INFINITY, e0 = 0; int iter; double f = k.reg / ((double)k.rs * k.rs), sc = 0; for (float v : I) sc = std::max(sc, fabs((double)v)); sc = sc * sc * k.K + f * (k.w * k.w + k.h * k.h); bool changed = false;
  for (iter = 0; iter < 100; ++iter) { double e = 0; prev = S; for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x) { int u = (int)floor((double)x / k.rs - 0.5), v = (int)floor((double)y / k.rs - 0.5), br = -1; double best = INFINITY; for (int b = std::max(0, v); b <= std::min(N - 1, v + 1); ++b) for (int a = std::max(0, u); a <= std::min(M - 1, u + 1); ++a) { int r = a + b * M; double const *q = &C[(size_t)r * D]; double d = f * ((x - q[0]) * (x - q[0]) + (y - q[1]) * (y - q[1])); for (int z = 0; z < k.K; ++z) d += (at(x, y, z) - q[2 + z]) * (at(x, y, z) - q[2 + z]); if (br >= 0 && fabs(d - best) < 1e-5 * (d + best) + 1e-6 * sc) c.discard(); if (d < best) { best = d; br = r; } } S[x + y * k.w] = br; e += best; }
    if (iter == 0) e0 = e; else { if (S != prev) changed = true; double dec = pe - e, th = 1e-5 * (e0 - e); if (dec < th) { if (dec > 0 && S != prev && fabs(dec - th) < 1e-4 * e0) c.discard(); break; } if (fabs(dec - th) < 1e-6 * (e0 + 1e-12) && S != prev) c.discard(); if (S == prev) { if (dec > th * 0.5) {} break; } } pe = e;
    ivec m(R, 0); std::fill(C.begin(), C.end(), 0.0); for (int p = 0; p < n; ++p) { double *q = &C[(size_t)S[p] * D]; ++m[S[p]]; q[0] += p % k.w; q[1] += p / k.w; for (int z = 0; z < k.K; ++z) q[2 + z] += at(p % k.w, p / k.w, z); } for (int r = 0; r < R; ++r) { if (!m[r]) c.discard(); for (int d = 0; d < D; ++d) C[(size_t)r * D + d] /= m[r]; } }
  if (R > 1 && changed) c.nontrivial(); c.label(R == 1 ? "single region" : changed ? "assignments updated" : "converged at once"); seg G = run(c, I, k, 0, 0xdeadbeef); for (int p = 0; p < n; ++p) VT_ASSERT(c, G[p] == S[p], "pixel (%d,%d) has label %u, k-means gives %u (%d iterations)", p % k.w, p / k.w, G[p], S[p], iter);
}
int main(int a, char **b) { return vt::vt_main(a, b); }
