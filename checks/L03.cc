// L03: training data adapters.
#include "vt.h"
#include "vl_all.h"
typedef std::vector<double> dvec; typedef std::vector<float> fvec;
typedef std::unique_ptr<VlSvmDataset, void (*)(VlSvmDataset *)> Own;
struct HomDel { void operator()(VlHomogeneousKernelMap *h) { vl_homogeneouskernelmap_delete(h); } }; typedef std::unique_ptr<VlHomogeneousKernelMap, HomDel> Hom;
static VlHomogeneousKernelMap *newHom(vt::Ctx &c) { return vl_homogeneouskernelmap_new(c.pick({VlHomogeneousKernelChi2, VlHomogeneousKernelIntersection, VlHomogeneousKernelJS}), c.pick({1.0, 0.5, 2.0}), (vl_size)c.pick({1, 0, 2, 3, 5}), c.pick({-1.0, 4.0, 10.0}), c.pick({VlHomogeneousKernelMapWindowUniform, VlHomogeneousKernelMapWindowRectangular})); }
template <class T> static void run(vt::Ctx &c) {
  bool isf = sizeof(T) == 4; size_t d = (size_t)c.pick({3, 1, 2, 4, 7, 16, 33}), n = (size_t)c.pick({4, 1, 2, 9, 30}); vt::Stream s = c.stream(); int kind = (int)c.i(0, 2); std::vector<T> x(d * n); for (T &v : x) v = s.below(6) == 0 ? (T)0 : (T)(kind == 0 ? s.uni() : kind == 1 ? s.gauss() : s.gauss() * 200); std::vector<T> copy = x; VlSvmDataset *ds = vl_svmdataset_new(isf ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, x.data(), d, n); Own own(ds, vl_svmdataset_delete); VT_ASSERT(c, ds, "no dataset"); Hom h1, h2; VlHomogeneousKernelMap *cur = nullptr; c.note("%s %zu x %zu", isf ? "float" : "double", d, n);
  int rounds = (int)c.i(1, 4); for (int r = 0; r < rounds; ++r) { int op = r == 0 && c.b() ? 0 : (int)c.i(0, 3); if (op == 1) { h1.reset(newHom(c)); vl_svmdataset_set_homogeneous_kernel_map(ds, h1.get()); h2.reset(); cur = h1.get(); } else if (op == 2) { h2.reset(newHom(c)); vl_svmdataset_set_homogeneous_kernel_map(ds, h2.get()); h1.reset(); cur = h2.get(); } else if (op == 3) { vl_svmdataset_set_homogeneous_kernel_map(ds, nullptr); cur = nullptr; }
    size_t m = cur ? vl_homogeneouskernelmap_get_dimension(cur) : 1, D = d * m; VT_ASSERT(c, vl_svmdataset_get_homogeneous_kernel_map(ds) == cur, "kernel map not stored"); VT_ASSERT(c, vl_svmdataset_get_dimension(ds) == D, "dimension %llu, should be %zu", (unsigned long long)vl_svmdataset_get_dimension(ds), D); VT_ASSERT(c, vl_svmdataset_get_num_data(ds) == n && vl_svmdataset_get_data(ds) == (void *)x.data(), "data or count"); if (cur) { c.nontrivial(); c.label("kernel map"); } c.note("map of dimension %zu", m);
    auto ip = vl_svmdataset_get_inner_product_function(ds); auto ac = vl_svmdataset_get_accumulate_function(ds); VT_ASSERT(c, ip && ac, "no function");
    for (int q = 0; q < 3; ++q) { size_t e = (size_t)s.below(n); dvec w(D), phi; for (double &v : w) v = s.gauss(); for (size_t j = 0; j < d; ++j) if (!cur) phi.push_back(x[e * d + j]); else { std::vector<T> b(m); if (isf) vl_homogeneouskernelmap_evaluate_f(cur, (float *)b.data(), 1, x[e * d + j]); else vl_homogeneouskernelmap_evaluate_d(cur, (double *)b.data(), 1, x[e * d + j]); for (T v : b) phi.push_back(v); }
      long double ref = 0, ab = 0; for (size_t j = 0; j < D; ++j) { ref += (long double)phi[j] * w[j]; ab += fabsl((long double)phi[j] * w[j]); } dvec keep = w; double g = ip(ds, e, w.data()); VT_ASSERT(c, w == keep, "inner product changes the model"); VT_ASSERT(c, fabs(g - (double)ref) <= 1e-14 * (D + 4) * (double)ab, "element %zu: inner product %.17g, should be %.17g", e, g, (double)ref);
      double mu = c.pick({1.0, -2.5, 0.0, 1e-3}); ac(ds, e, w.data(), mu); for (size_t j = 0; j < D; ++j) { double want = keep[j] + mu * phi[j]; VT_ASSERT(c, fabs(w[j] - want) <= 4e-16 * (fabs(keep[j]) + fabs(mu * phi[j])), "element %zu: accumulated component %zu is %.17g, should be %.17g", e, j, w[j], want); } VT_ASSERT(c, x == copy, "data modified"); } }
}
VT_CHECK(adapters_double, 50000, 1000000, "a kernel map is set") { run<double>(c); }
VT_CHECK(adapters_float, 50000, 1000000, "a kernel map is set") { run<float>(c); }
int main(int a, char **b) { return vt::vt_main(a, b); }
