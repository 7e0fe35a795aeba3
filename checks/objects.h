// Library objects driven generically: an object is configured from a seed, used on inputs drawn from a seed and
// returns everything observable as bytes. Shared by S05 (memory, reuse, copies) and S04 (threads).
#pragma once
#include "feat.h"
#include "vl_all.h"
#include <unistd.h>
#include <sys/mman.h>
struct Lib { static thread_local int depth; Lib() { ++depth; } ~Lib() { --depth; } };
inline thread_local int Lib::depth = 0;
#define L(call) (Lib(), call)
typedef std::string Bytes;
template <class T> struct Buf { T *p; size_t n; Buf(size_t k) : n(k) { void *q; if (posix_memalign(&q, 64, std::max<size_t>(1, k * sizeof(T)))) abort(); p = (T *)q; memset(q, 0, std::max<size_t>(1, k * sizeof(T))); } Buf(const Buf &) = delete; ~Buf() { free(p); } operator T *() { return p; } T &operator[](size_t i) { return p[i]; } };
static inline void put(Bytes &b, const void *p, size_t n) { if (n && p) b.append((const char *)p, n); }
template <class T> static inline void putv(Bytes &b, T v) { put(b, &v, sizeof v); }
template <class T> static inline void putb(Bytes &b, Buf<T> &v) { put(b, v.p, v.n * sizeof(T)); }
typedef vt::Stream St;
static inline void fill(St &s, Buf<float> &b) { int q = (int)s.below(3); for (size_t i = 0; i < b.n; ++i) b[i] = q == 0 ? (float)s.real(-1, 1) : q == 1 ? (float)s.below(4) : (float)s.gauss(); }
static inline void fill(St &s, Buf<double> &b) { int q = (int)s.below(3); for (size_t i = 0; i < b.n; ++i) b[i] = q == 0 ? s.real(-1, 1) : q == 1 ? (double)s.below(4) : s.gauss(); }
static inline void image(St &s, Buf<float> &b, int w, double amp) { int q = (int)s.below(4); double f = s.real(0.1, 1), g = s.real(0.1, 1); for (size_t i = 0; i < b.n; ++i) { int x = (int)(i % w), y = (int)(i / w); b[i] = (float)(amp * (q == 0 ? s.uni() : q == 1 ? 0.5 + 0.25 * sin(f * x) + 0.25 * cos(g * y + 0.2 * x) : q == 2 ? ((x / 5 + y / 4) & 1) + 0.02 * s.uni() : exp(-0.02 * ((x - w / 2) * (x - w / 2) + (y - 9) * (y - 9))) + 0.01 * s.uni())); } }
struct Obj { virtual ~Obj() {} virtual Bytes use(uint64_t seed) = 0; virtual Obj *copy() { return nullptr; } virtual Bytes state() { return Bytes(); } virtual void reset() {} };

template <class T> struct KMeans : Obj {
  VlKMeans *k; int alg, init; static vl_type ty() { return sizeof(T) == 4 ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE; }
  KMeans(St s) { alg = (int)s.below(3); VlVectorComparisonType d = s.below(2) ? VlDistanceL1 : VlDistanceL2; k = L(vl_kmeans_new(ty(), d)); vl_kmeans_set_algorithm(k, (VlKMeansAlgorithm)alg); vl_kmeans_set_initialization(k, s.below(2) ? VlKMeansPlusPlus : VlKMeansRandomSelection); vl_kmeans_set_max_num_iterations(k, s.below(7)); vl_kmeans_set_num_repetitions(k, 1 + s.below(3)); vl_kmeans_set_num_trees(k, 1 + s.below(3)); vl_kmeans_set_max_num_comparisons(k, s.below(2) ? 0 : 1 + s.below(20)); }
  KMeans(VlKMeans *q) : k(q), alg(0) {}
  ~KMeans() { L(vl_kmeans_delete(k)); }
  void reset() { L(vl_kmeans_reset(k)); }
  Obj *copy() { return new KMeans(L(vl_kmeans_new_copy(k))); }
  Bytes state() { Bytes b; putv(b, vl_kmeans_get_num_centers(k)); putv(b, vl_kmeans_get_dimension(k)); putv(b, vl_kmeans_get_distance(k)); putv(b, vl_kmeans_get_data_type(k)); putv(b, vl_kmeans_get_algorithm(k)); putv(b, vl_kmeans_get_initialization(k)); putv(b, vl_kmeans_get_num_repetitions(k)); putv(b, vl_kmeans_get_max_num_iterations(k)); putv(b, vl_kmeans_get_min_energy_variation(k)); putv(b, vl_kmeans_get_max_num_comparisons(k)); putv(b, vl_kmeans_get_num_trees(k)); putv(b, vl_kmeans_get_energy(k)); if (vl_kmeans_get_centers(k)) put(b, vl_kmeans_get_centers(k), sizeof(T) * vl_kmeans_get_num_centers(k) * vl_kmeans_get_dimension(k)); return b; }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; size_t D = 1 + s.below(6), K = 1 + s.below(6), N = K + s.below(30), Q = 1 + s.below(10); Buf<T> x(D * N), y(D * Q), ctr(D * K), dist(Q); fill(s, x); fill(s, y); fill(s, ctr); Buf<vl_uint32> a(Q);
    switch (s.below(4)) { case 0: { double e = L(vl_kmeans_cluster(k, x, D, N, K)); putv(b, e); putv(b, vl_kmeans_get_energy(k)); break; } case 1: L(vl_kmeans_init_centers_with_rand_data(k, x, D, N, K)); putv(b, L(vl_kmeans_refine_centers(k, x, N))); break; case 2: L(vl_kmeans_init_centers_plus_plus(k, x, D, N, K)); putv(b, L(vl_kmeans_refine_centers(k, x, N))); break; default: L(vl_kmeans_set_centers(k, ctr, D, K)); }
    bool wd = s.below(2); L(vl_kmeans_quantize(k, a, wd ? dist.p : nullptr, y, Q)); putb(b, a); putb(b, dist); put(b, vl_kmeans_get_centers(k), sizeof(T) * K * D); putv(b, vl_kmeans_get_num_centers(k)); putv(b, vl_kmeans_get_dimension(k)); return b; }
};
template <class T> struct GMM : Obj {
  VlGMM *g; VlKMeans *km = nullptr; size_t D, K; int init = 0;
  GMM(St s) { D = 1 + s.below(4); K = 1 + s.below(4); g = L(vl_gmm_new(KMeans<T>::ty(), D, K)); init = (int)s.below(3); vl_gmm_set_initialization(g, init == 1 ? VlGMMRand : VlGMMKMeans); vl_gmm_set_max_num_iterations(g, 1 + s.below(6)); vl_gmm_set_num_repetitions(g, 1 + s.below(3)); if (init == 2) { km = L(vl_kmeans_new(KMeans<T>::ty(), VlDistanceL2)); L(vl_gmm_set_kmeans_init_object(g, km)); } vl_gmm_set_covariance_lower_bound(g, 1e-3); }
  GMM(VlGMM *q, size_t d, size_t k, int) : g(q), D(d), K(k) {}
  ~GMM() { L(vl_gmm_delete(g)); if (km) L(vl_kmeans_delete(km)); }
  void reset() { L(vl_gmm_reset(g)); }
  Obj *copy() { return new GMM(L(vl_gmm_new_copy(g)), D, K, 0); }
  void params(Bytes &b) { put(b, vl_gmm_get_means(g), sizeof(T) * D * K); put(b, vl_gmm_get_covariances(g), sizeof(T) * D * K); put(b, vl_gmm_get_priors(g), sizeof(T) * K); }
  Bytes state() { Bytes b; putv(b, vl_gmm_get_dimension(g)); putv(b, vl_gmm_get_num_clusters(g)); putv(b, vl_gmm_get_initialization(g)); putv(b, vl_gmm_get_max_num_iterations(g)); putv(b, vl_gmm_get_num_repetitions(g)); put(b, vl_gmm_get_covariance_lower_bounds(g), sizeof(double) * D); params(b); return b; }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; size_t N = K + s.below(30); Buf<T> x(D * N), m(D * K), v(D * K), p(K); fill(s, x); for (auto i = 0u; i < D * K; ++i) { m[i] = (T)s.real(-1, 1); v[i] = (T)s.real(0.1, 2); } for (auto i = 0u; i < K; ++i) p[i] = (T)(1.0 / K);
    switch (s.below(3)) { case 0: putv(b, L(vl_gmm_cluster(g, x, N))); putv(b, vl_gmm_get_loglikelihood(g)); break; case 1: if (s.below(2)) L(vl_gmm_init_with_rand_data(g, x, N)); else L(vl_gmm_init_with_kmeans(g, x, N, nullptr)); putv(b, L(vl_gmm_em(g, x, N))); break; default: L(vl_gmm_set_means(g, m)); L(vl_gmm_set_covariances(g, v)); L(vl_gmm_set_priors(g, p)); putv(b, L(vl_gmm_em(g, x, N))); }
    params(b); put(b, vl_gmm_get_posteriors(g), sizeof(T) * K * N); putv(b, vl_gmm_get_num_data(g)); return b; }
};
template <class T> struct Forest : Obj {
  VlKDForest *f; size_t D, trees, ncomp; VlVectorComparisonType d; std::unique_ptr<Buf<T>> x; std::vector<VlKDForestSearcher *> held;
  Forest(St s) { D = 1 + s.below(5); trees = 1 + s.below(3); d = s.below(2) ? VlDistanceL1 : VlDistanceL2; f = L(vl_kdforest_new(KMeans<T>::ty(), D, trees, d)); vl_kdforest_set_thresholding_method(f, s.below(2) ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN); vl_kdforest_set_max_num_comparisons(f, s.below(2) ? 0 : 1 + s.below(30)); }
  ~Forest() { L(vl_kdforest_delete(f)); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; size_t N = 1 + s.below(40), Q = 1 + s.below(6), k = 1 + s.below(6); std::unique_ptr<Buf<T>> n(new Buf<T>(N * D)); fill(s, *n); Buf<T> q(Q * D); fill(s, q); L(vl_kdforest_build(f, N, n->p)); x.swap(n); for (size_t t = 0; t < trees; ++t) { putv(b, vl_kdforest_get_depth_of_tree(f, t)); putv(b, vl_kdforest_get_num_nodes_of_tree(f, t)); }
    Buf<VlKDForestNeighbor> nb(k); auto rec = [&]() { for (size_t i = 0; i < k; ++i) { putv(b, (uint64_t)nb[i].index); if (nb[i].index != (vl_uindex)-1) putv(b, nb[i].distance); } };
    int extra = (int)s.below(3); std::vector<VlKDForestSearcher *> fresh; for (int i = 0; i < extra; ++i) fresh.push_back(L(vl_kdforest_new_searcher(f)));
    for (size_t i = 0; i < Q; ++i) { putv(b, (uint64_t)L(vl_kdforest_query(f, nb, k, q + i * D))); rec(); for (auto *e : fresh) { L(vl_kdforestsearcher_query(e, nb, k, q + i * D)); rec(); } for (auto *e : held) { Buf<VlKDForestNeighbor> h(k); L(vl_kdforestsearcher_query(e, h, k, q + i * D)); } }
    Buf<vl_uint32> ix(k * Q); Buf<T> ds(k * Q); L(vl_kdforest_query_with_array(f, ix, k, Q, ds, q)); putb(b, ix); if (vl_kdforest_get_max_num_comparisons(f) == 0 && k <= N) putb(b, ds);
    if (extra > 1) { L(vl_kdforestsearcher_delete(fresh[s.below(2)])); } return b; }
};
struct Scale : Obj {
  VlScaleSpace *s; VlScaleSpaceGeometry g;
  Scale(St r) { g = vl_scalespace_get_default_geometry(8 + r.below(30), 8 + r.below(30)); g.firstOctave = r.range(-1, 1); g.lastOctave = g.firstOctave + r.below(3); g.octaveResolution = 1 + r.below(4); g.octaveFirstSubdivision = r.range(-1, 0); g.octaveLastSubdivision = g.octaveResolution + r.range(-1, 1); s = L(vl_scalespace_new_with_geometry(g)); clear(); }
  Scale(VlScaleSpace *q, VlScaleSpaceGeometry h) : s(q), g(h) {}
  ~Scale() { L(vl_scalespace_delete(s)); }
  void clear() { Buf<float> z(g.width * g.height); L(vl_scalespace_put_image(s, z)); }
  Obj *copy() { static thread_local unsigned n = 0; if (++n % 3 == 0) { Scale *c = new Scale(L(vl_scalespace_new_shallow_copy(s)), g); bool same = vl_scalespacegeometry_is_equal(vl_scalespace_get_geometry(c->s), g); for (long o = g.firstOctave; o <= g.lastOctave; ++o) for (long t = g.octaveFirstSubdivision; t <= g.octaveLastSubdivision; ++t) { auto og = vl_scalespace_get_octave_geometry(s, o); memcpy(vl_scalespace_get_level(c->s, o, t), vl_scalespace_get_level(s, o, t), og.width * og.height * 4); } if (!same) memset(vl_scalespace_get_level(c->s, g.firstOctave, g.octaveFirstSubdivision), 1, 4); return c; } return new Scale(L(vl_scalespace_new_copy(s)), g); }
  Bytes state() { Bytes b; for (long o = g.firstOctave; o <= g.lastOctave; ++o) for (long t = g.octaveFirstSubdivision; t <= g.octaveLastSubdivision; ++t) { auto og = vl_scalespace_get_octave_geometry(s, o); put(b, vl_scalespace_get_level(s, o, t), og.width * og.height * 4); } return b; }
  Bytes use(uint64_t seed) { St r(seed); Buf<float> im(g.width * g.height); image(r, im, (int)g.width, 1); L(vl_scalespace_put_image(s, im)); return state(); }
};
struct Sift : Obj {
  VlSiftFilt *f; int w, h;
  Sift(St s) { w = 10 + (int)s.below(30); h = 10 + (int)s.below(30); f = L(vl_sift_new(w, h, s.below(2) ? -1 : 1 + (int)s.below(3), 1 + (int)s.below(4), (int)s.range(-1, 1))); vl_sift_set_peak_thresh(f, s.below(2) ? 0 : 0.5); vl_sift_set_edge_thresh(f, s.real(2, 20)); vl_sift_set_magnif(f, s.real(1, 4)); vl_sift_set_window_size(f, s.real(1, 3)); vl_sift_set_norm_thresh(f, s.below(2) ? 0 : 1); }
  ~Sift() { L(vl_sift_delete(f)); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; Buf<float> im(w * h); image(s, im, w, 255); int stop = (int)s.below(4), e = L(vl_sift_process_first_octave(f, im)); while (!e) { L(vl_sift_detect(f)); int n = vl_sift_get_nkeypoints(f); const VlSiftKeypoint *k = vl_sift_get_keypoints(f); putv(b, n); for (int i = 0; i < n; ++i) { putv(b, k[i].x); putv(b, k[i].y); putv(b, k[i].sigma); putv(b, k[i].o); putv(b, k[i].is); double a[4]; int q = L(vl_sift_calc_keypoint_orientations(f, a, k + i)); putv(b, q); put(b, a, q * sizeof(double)); if (q && i < 6) { float d[128]; L(vl_sift_calc_keypoint_descriptor(f, d, k + i, a[0])); put(b, d, sizeof d); } }
      VlSiftKeypoint u; vl_sift_keypoint_init(f, &u, w / 2.0, h / 2.0, 2.5); double a[4]; putv(b, L(vl_sift_calc_keypoint_orientations(f, a, &u))); for (int j = -1; j < vl_sift_get_nlevels(f) + 2; ++j) put(b, vl_sift_get_octave(f, j), (size_t)4 * vl_sift_get_octave_width(f) * vl_sift_get_octave_height(f)); if (stop == 3) break; e = L(vl_sift_process_next_octave(f)); }
    return b; }
};
struct Dsift : Obj {
  VlDsiftFilter *f; int w, h;
  Dsift(St s) { w = 8 + (int)s.below(20); h = 8 + (int)s.below(20); f = s.below(3) ? L(vl_dsift_new(w, h)) : L(vl_dsift_new_basic(w, h, 1 + (int)s.below(4), 1 + (int)s.below(4))); }
  ~Dsift() { L(vl_dsift_delete(f)); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; Buf<float> im(w * h); image(s, im, w, 1); VlDsiftDescriptorGeometry g; g.numBinT = 1 + (int)s.below(9); g.numBinX = 1 + (int)s.below(4); g.numBinY = 1 + (int)s.below(4); g.binSizeX = 1 + (int)s.below(5); g.binSizeY = 1 + (int)s.below(5); int ord = (int)s.below(2), x1 = (int)s.below(5), y1 = (int)s.below(5), x2 = w - 1 - (int)s.below(3), y2 = h - 1 - (int)s.below(3), sx = 1 + (int)s.below(5), sy = 1 + (int)s.below(5); if (ord) L(vl_dsift_set_geometry(f, &g)); L(vl_dsift_set_bounds(f, x1, y1, x2, y2)); L(vl_dsift_set_steps(f, sx, sy)); if (!ord) L(vl_dsift_set_geometry(f, &g)); vl_dsift_set_flat_window(f, s.below(2)); vl_dsift_set_window_size(f, s.real(0.5, 3));
    int n = 1 + (int)s.below(2); for (int i = 0; i < n; ++i) L(vl_dsift_process(f, im)); int k = vl_dsift_get_keypoint_num(f); putv(b, k); for (int i = 0; i < k; ++i) { const VlDsiftKeypoint *q = vl_dsift_get_keypoints(f) + i; putv(b, q->x); putv(b, q->y); putv(b, q->norm); } put(b, vl_dsift_get_descriptors(f), (size_t)4 * k * vl_dsift_get_descriptor_size(f)); return b; }
};
struct Hog : Obj {
  VlHog *h;
  Hog(St s) { h = L(vl_hog_new(s.below(2) ? VlHogVariantUoctti : VlHogVariantDalalTriggs, 2 + s.below(9), s.below(2))); vl_hog_set_use_bilinear_orientation_assignments(h, s.below(2)); }
  ~Hog() { L(vl_hog_delete(h)); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; size_t w = 4 + s.below(24), H = 4 + s.below(24), cs = 2 + s.below(4), nc = 1 + s.below(3); Buf<float> im(w * H * nc), an(w * H); image(s, im, (int)w, 1); for (size_t i = 0; i < w * H; ++i) an[i] = (float)s.real(0, 6.28);
    if (s.below(3)) L(vl_hog_put_image(h, im, w, H, nc, cs)); else L(vl_hog_put_polar_field(h, im, an, s.below(2), w, H, cs)); size_t hw = vl_hog_get_width(h), hh = vl_hog_get_height(h), d = vl_hog_get_dimension(h); Buf<float> f(hw * hh * d); L(vl_hog_extract(h, f)); putb(b, f); if (s.below(2)) { L(vl_hog_extract(h, f)); putb(b, f); } size_t g = vl_hog_get_glyph_size(h); if (hw * hh <= 16) { Buf<float> r(g * g * hw * hh); L(vl_hog_render(h, r, f, hw, hh)); putb(b, r); } put(b, vl_hog_get_permutation(h), sizeof(vl_index) * d); return b; }
};
struct Liop : Obj {
  VlLiopDesc *d; size_t side;
  Liop(St s) { side = 9 + 2 * s.below(8); d = s.below(2) && side >= 13 ? L(vl_liopdesc_new_basic(side)) : L(vl_liopdesc_new(2 + (int)s.below(3), 1 + (int)s.below(6), (float)s.real(0.5, 3), side)); vl_liopdesc_set_intensity_threshold(d, s.below(2) ? 0.01F : -0.1F); }
  ~Liop() { L(vl_liopdesc_delete(d)); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; Buf<float> p(side * side), o(vl_liopdesc_get_dimension(d)); image(s, p, (int)side, 1); L(vl_liopdesc_process(d, o, p)); putb(b, o); return b; }
};
struct Lbp : Obj {
  VlLbp *l; Lbp(St s) { l = L(vl_lbp_new(VlLbpUniform, s.below(2))); } ~Lbp() { L(vl_lbp_delete(l)); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; size_t w = 3 + s.below(20), h = 3 + s.below(20), cs = 1 + s.below(5); Buf<float> im(w * h), o((w / cs) * (h / cs) * vl_lbp_get_dimension(l)); image(s, im, (int)w, 1); L(vl_lbp_process(l, o, im, w, h, cs)); putb(b, o); return b; }
};
struct Mser : Obj {
  VlMserFilt *f; int d[3], nd; size_t n;
  Mser(St s) { nd = 1 + (int)s.below(3); n = 1; for (int i = 0; i < nd; ++i) { d[i] = 1 + (int)s.below(nd == 1 ? 60 : nd == 2 ? 16 : 6); n *= d[i]; } f = L(vl_mser_new(nd, d)); vl_mser_set_delta(f, 1 + s.below(6)); vl_mser_set_max_variation(f, s.real(0.1, 2)); vl_mser_set_min_diversity(f, s.real(0, 0.5)); vl_mser_set_max_area(f, s.real(0.4, 1)); vl_mser_set_min_area(f, s.real(0, 0.1)); }
  ~Mser() { L(vl_mser_delete(f)); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; Buf<vl_uint8> im(n); int q = (int)s.below(3), a = 1 + (int)s.below(255); for (size_t i = 0; i < n; ++i) im[i] = q == 0 ? (vl_uint8)s.below(a) : q == 1 ? (vl_uint8)(((i / 3) & 1) * 100 + s.below(5)) : (vl_uint8)(i * a / n); L(vl_mser_process(f, im)); bool e = s.below(2); if (e) L(vl_mser_ell_fit(f)); putv(b, vl_mser_get_regions_num(f)); put(b, vl_mser_get_regions(f), 4 * vl_mser_get_regions_num(f)); put(b, vl_mser_get_stats(f), sizeof(VlMserStats)); if (e) { putv(b, vl_mser_get_ell_num(f)); putv(b, vl_mser_get_ell_dof(f)); put(b, vl_mser_get_ell(f), (size_t)4 * vl_mser_get_ell_num(f) * vl_mser_get_ell_dof(f)); } return b; }
};
struct Cov : Obj {
  VlCovDet *d; int method;
  Cov(St s) { method = 1 + (int)s.below(6); d = L(vl_covdet_new((VlCovDetMethod)method)); vl_covdet_set_first_octave(d, s.range(-1, 1)); vl_covdet_set_octave_resolution(d, 1 + s.below(4)); vl_covdet_set_peak_threshold(d, s.below(2) ? 0 : 0.001); vl_covdet_set_transposed(d, s.below(2)); vl_covdet_set_aa_accurate_smoothing(d, s.below(2)); vl_covdet_set_non_extrema_suppression_threshold(d, s.below(2) ? 0 : 0.5); vl_covdet_set_allow_padded_warping(d, s.below(2)); if (s.below(2)) vl_covdet_set_max_num_orientations(d, 1 + s.below(4)); }
  ~Cov() { L(vl_covdet_delete(d)); }
  void reset() { L(vl_covdet_reset(d)); }
  static void feat(Bytes &b, const VlCovDetFeature &f) { putv(b, f.frame); putv(b, f.peakScore); putv(b, f.edgeScore); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; size_t w = 8 + s.below(34), h = 8 + s.below(34); Buf<float> im(w * h); image(s, im, (int)w, 1); int src = (int)s.below(3); if (!src) L(vl_covdet_reset(d)); putv(b, L(vl_covdet_put_image(d, im, w, h))); if (src) L(vl_covdet_detect(d)); else for (int i = 0; i < 3; ++i) { VlCovDetFeature f; memset(&f, 0, sizeof f); f.frame.x = (float)s.real(0, w); f.frame.y = (float)s.real(0, h); f.frame.a11 = f.frame.a22 = (float)s.real(1, 4); L(vl_covdet_append_feature(d, &f)); }
    int ops = (int)s.below(16); if (ops & 1) L(vl_covdet_drop_features_outside(d, s.real(0, 4))); if (ops & 2) L(vl_covdet_extract_laplacian_scales(d)); if (ops & 4) L(vl_covdet_extract_affine_shape(d)); if (ops & 8) L(vl_covdet_extract_orientations(d)); size_t n = vl_covdet_get_num_features(d); putv(b, n); VlCovDetFeature *f = (VlCovDetFeature *)vl_covdet_get_features(d); for (size_t i = 0; i < n; ++i) { feat(b, f[i]); if (ops & 8) putv(b, f[i].orientationScore); if (ops & 2) putv(b, f[i].laplacianScaleScore); } if (src) putv(b, vl_covdet_get_num_non_extrema_suppressed(d)); vl_size ns; const vl_size *st = vl_covdet_get_laplacian_scales_statistics(d, &ns); if (ops & 2) put(b, st, ns * sizeof(vl_size));
    Buf<float> p(25 * 25); for (size_t i = 0; i < n && i < 3; ++i) { VlFrameOrientedEllipse fr = f[i].frame; L(vl_covdet_extract_patch_for_frame(d, p, 12, 3, 1, fr)); putb(b, p); } return b; }
};
struct Qs : Obj {
  VlQS *q; int w, h, nc; std::unique_ptr<Buf<double>> im;
  Qs(St s) { w = 3 + (int)s.below(10); h = 3 + (int)s.below(10); nc = 1 + (int)s.below(3); im.reset(new Buf<double>(w * h * nc)); fill(s, *im); q = L(vl_quickshift_new(*im, w, h, nc)); vl_quickshift_set_medoid(q, s.below(2)); }
  ~Qs() { L(vl_quickshift_delete(q)); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; vl_quickshift_set_kernel_size(q, s.real(0.5, 2)); vl_quickshift_set_max_dist(q, s.real(1, 6)); L(vl_quickshift_process(q)); put(b, vl_quickshift_get_parents(q), (size_t)w * h * sizeof(int)); put(b, vl_quickshift_get_dists(q), (size_t)w * h * 8); put(b, vl_quickshift_get_density(q), (size_t)w * h * 8); return b; }
};
struct Ikm : Obj {
  VlIKMFilt *f; int m;
  Ikm(St s) { m = s.below(2) ? VL_IKM_ELKAN : VL_IKM_LLOYD; f = L(vl_ikm_new(m)); vl_ikm_set_max_niters(f, 1 + s.below(20)); }
  ~Ikm() { L(vl_ikm_delete(f)); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; size_t M = 1 + s.below(5), K = 1 + s.below(6), N = K + s.below(30); Buf<vl_uint8> x(M * N); for (size_t i = 0; i < x.n; ++i) x[i] = (vl_uint8)s.below(256); Buf<vl_ikmacc_t> c0(M * K); for (size_t i = 0; i < c0.n; ++i) c0[i] = (vl_ikmacc_t)s.below(256); Buf<vl_uint32> a(N); switch (s.below(3)) { case 0: L(vl_ikm_init(f, c0, M, K)); break; case 1: L(vl_ikm_init_rand(f, M, K)); break; default: L(vl_ikm_init_rand_data(f, x, M, N, K)); } int n = (int)s.below(3); for (int i = 0; i < n; ++i) putv(b, L(vl_ikm_train(f, x, N))); L(vl_ikm_push(f, a, x, N)); putb(b, a); put(b, vl_ikm_get_centers(f), sizeof(vl_ikmacc_t) * M * K); return b; }
};
struct Hikm : Obj {
  VlHIKMTree *t; Hikm(St s) { t = L(vl_hikm_new(s.below(2) ? VL_IKM_ELKAN : VL_IKM_LLOYD)); vl_hikm_set_max_niters(t, 1 + (int)s.below(20)); } ~Hikm() { L(vl_hikm_delete(t)); }
  static void walk(Bytes &b, const VlHIKMNode *n, size_t M) { if (!n) { putv(b, 0); return; } size_t K = vl_ikm_get_K(n->filter); putv(b, K); put(b, vl_ikm_get_centers(n->filter), K * M * sizeof(vl_ikmacc_t)); if (n->children) for (size_t k = 0; k < K; ++k) walk(b, n->children[k], M); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; size_t M = 1 + s.below(4), K = 2 + s.below(3), dep = 1 + s.below(3), N = 1 + s.below(40); Buf<vl_uint8> x(M * N); for (size_t i = 0; i < x.n; ++i) x[i] = (vl_uint8)s.below(256); L(vl_hikm_init(t, M, K, dep)); int n = 1 + (int)s.below(2); for (int i = 0; i < n; ++i) L(vl_hikm_train(t, x, N)); Buf<vl_uint32> a(N * dep); L(vl_hikm_push(t, a, x, N)); putb(b, a); walk(b, vl_hikm_get_root(t), M); return b; }
};
struct Svm : Obj {   // a data set and its kernel map outlive the solvers using them
  VlSvmDataset *ds; VlHomogeneousKernelMap *hom[2]; size_t D, N; bool dbl; std::unique_ptr<Buf<double>> x, y;
  Svm(St s) { D = 1 + s.below(5); N = 2 + s.below(25); dbl = s.below(2); x.reset(new Buf<double>(D * N)); y.reset(new Buf<double>(N)); for (size_t i = 0; i < D * N; ++i) { if (dbl) (*x)[i] = s.real(-0.4, 0.4); else ((float *)x->p)[i] = (float)s.real(-0.4, 0.4); } for (size_t i = 0; i < N; ++i) (*y)[i] = i % 2 ? 1 : -1; ds = L(vl_svmdataset_new(dbl ? VL_TYPE_DOUBLE : VL_TYPE_FLOAT, x->p, D, N)); for (int i = 0; i < 2; ++i) hom[i] = L(vl_homogeneouskernelmap_new((VlHomogeneousKernelType)s.below(3), 1, s.below(4), -1, (VlHomogeneousKernelMapWindowType)s.below(2))); }
  ~Svm() { L(vl_svmdataset_delete(ds)); for (auto *h : hom) L(vl_homogeneouskernelmap_delete(h)); }
  Bytes use(uint64_t seed) { St s(seed); Bytes b; int h = (int)s.below(3); L(vl_svmdataset_set_homogeneous_kernel_map(ds, h ? hom[h - 1] : nullptr)); int mode = (int)s.below(3); if (mode == 0 && !dbl) mode = 1; VlSvmSolverType ty = s.below(2) ? VlSvmSolverSgd : VlSvmSolverSdca; VlSvm *v = mode == 0 ? L(vl_svm_new(ty, *x, D, N, *y, 0.1)) : L(vl_svm_new_with_dataset(ty, ds, *y, 0.1)); vl_svm_set_max_num_iterations(v, 1 + s.below(200)); vl_svm_set_epsilon(v, 1e-4); vl_svm_set_loss(v, (VlSvmLossType)s.below(5)); if (s.below(2)) vl_svm_set_bias_multiplier(v, 0.5); std::vector<double> w(N, 1); if (s.below(2)) { for (auto &q : w) q = s.real(0.5, 1.5); vl_svm_set_weights(v, w.data()); } size_t dim = vl_svm_get_dimension(v); if (s.below(2)) { std::vector<double> m(dim, 0.01); vl_svm_set_model(v, m.data()); if (ty == VlSvmSolverSgd) vl_svm_set_bias(v, 0.1); }
    L(vl_svm_train(v)); put(b, vl_svm_get_model(v), 8 * dim); putv(b, vl_svm_get_bias(v)); putv(b, vl_svm_get_statistics(v)->objective); putv(b, vl_svm_get_statistics(v)->iteration); L(vl_svm_delete(v)); return b; }
};
struct Functions : Obj {   // stateless entry points that allocate internally
  Functions(St) {}
  Bytes use(uint64_t seed) { St s(seed); Bytes b; switch (s.below(11)) {
    case 0: { size_t w = 4 + s.below(24), h = 4 + s.below(24), nc = 1 + s.below(3); Buf<float> im(w * h * nc); image(s, im, (int)w, 1); Buf<vl_uint32> o(w * h); L(vl_slic_segment(o, im, w, h, nc, 2 + s.below(8), (float)s.real(0, 2), s.below(5))); putb(b, o); break; }
    case 1: { unsigned n = 1 + (unsigned)s.below(12), l = 1 + (unsigned)s.below(4); Buf<double> p(n * l); for (size_t i = 0; i < p.n; ++i) p[i] = 0.1 + s.uni(); VlAIB *a = L(vl_aib_new(p, n, l)); L(vl_aib_process(a)); put(b, vl_aib_get_parents(a), (2 * n - 1) * 4); put(b, vl_aib_get_costs(a), n * 8); L(vl_aib_delete(a)); break; }
    case 2: { VlHomogeneousKernelMap *h = L(vl_homogeneouskernelmap_new((VlHomogeneousKernelType)s.below(3), s.real(0.5, 1.5), s.below(5), s.below(2) ? -1 : 6, (VlHomogeneousKernelMapWindowType)s.below(2))); Buf<double> o(vl_homogeneouskernelmap_get_dimension(h)); L(vl_homogeneouskernelmap_evaluate_d(h, o, 1, s.real(0, 3))); putb(b, o); L(vl_homogeneouskernelmap_delete(h)); break; }
    case 3: { size_t D = 1 + s.below(5), K = 1 + s.below(4), N = s.below(20); Buf<float> m(D * K), v(D * K), p(K), x(D * N), e(2 * D * K); fill(s, m); fill(s, x); for (size_t i = 0; i < D * K; ++i) v[i] = (float)s.real(0.1, 2); for (size_t i = 0; i < K; ++i) p[i] = 1.0F / K; L(vl_fisher_encode(e, VL_TYPE_FLOAT, m, D, K, v, p, x, N, (int)s.below(8))); putb(b, e); break; }
    case 4: { size_t D = 1 + s.below(5), K = 1 + s.below(4), N = s.below(20); Buf<double> m(D * K), x(D * N), a(K * N), e(D * K); fill(s, m); fill(s, x); for (size_t i = 0; i < N; ++i) a[i * K + s.below(K)] = 1; L(vl_vlad_encode(e, VL_TYPE_DOUBLE, m, D, K, x, N, a, (int)s.below(16))); putb(b, e); break; }
    case 5: { size_t w = 1 + s.below(20), h = 1 + s.below(20); Buf<float> im(w * h), o(w * h); image(s, im, (int)w, 1); L(vl_imsmooth_f(o, w, im, w, h, w, s.real(0, 3), s.real(0, 3))); putb(b, o); break; }
    case 6: { size_t w = 1 + s.below(20), h = 1 + s.below(20); Buf<double> im(w * h), o(w * h); for (size_t i = 0; i < w * h; ++i) im[i] = s.uni(); L(vl_imconvcoltri_d(o, w, im, w, h, w, 1 + s.below(8), 1, VL_PAD_BY_CONTINUITY)); putb(b, o); break; }
    case 7: { size_t w = 1 + s.below(20), h = 1 + s.below(20); Buf<float> im(w * h), o(w * h); for (size_t i = 0; i < w * h; ++i) im[i] = (float)s.uni(); Buf<vl_uindex> ix(w * h); L(vl_image_distance_transform_f(im, w, h, 1, w, o, s.below(2) ? ix.p : nullptr, (float)s.real(0.1, 2), 0)); putb(b, o); break; }
    case 8: { vl_size dims[3] = {1 + s.below(4), 1 + s.below(4), 1 + s.below(4)}; VlArray *a = s.below(2) ? L(vl_array_new(VL_TYPE_FLOAT, 1 + s.below(3), dims)) : L(vl_array_new_matrix(VL_TYPE_DOUBLE, dims[0], dims[1])); putv(b, vl_array_get_num_elements(a)); L(vl_array_delete(a)); Buf<double> ext(64); VlArray *e = L(vl_array_new_envelope(ext.p, VL_TYPE_DOUBLE, 3, dims)); L(vl_array_delete(e)); VlArray m; L(vl_array_init_matrix(&m, VL_TYPE_FLOAT, 3, 4)); L(vl_array_dealloc(&m)); break; }
    case 9: { size_t w = 1 + s.below(6), h = 1 + s.below(6); std::string t = "P5\n"; if (s.below(8) == 0) t = "P9\n"; t += std::to_string(w) + " " + std::to_string(h) + (s.below(8) ? "\n255\n" : "\n70000\n"); for (size_t i = 0; i < w * h; ++i) t += (char)s.below(256); if (s.below(4) == 0) t.resize(t.size() - s.below(t.size())); int fd = memfd_create("p", 0); if (write(fd, t.data(), t.size()) != (ssize_t)t.size()) abort(); std::string nm = "/proc/self/fd/" + std::to_string(fd); VlPgmImage im; vl_uint8 *d = nullptr; float *f = nullptr; int e; if (s.below(2)) e = L(vl_pgm_read_new(nm.c_str(), &im, &d)); else e = L(vl_pgm_read_new_f(nm.c_str(), &im, &f)); close(fd); putv(b, e); if (!e) { if (d) put(b, d, w * h); else put(b, f, 4 * w * h); L(vl_free(d ? (void *)d : (void *)f)); } break; }
    default: { size_t D = 1 + s.below(6), N = 1 + s.below(6); Buf<float> x(D * N), o(N * N); fill(s, x); L(vl_eval_vector_comparison_on_all_pairs_f(o, D, x, N, nullptr, 0, vl_get_vector_comparison_function_f(VlDistanceL1))); putb(b, o); double Ab[4] = {1, 0.5, 0.2, 2}, bb[2] = {1, 2}, xx[2]; (void)Ab; (void)bb; (void)xx; Buf<double> F(N), Y(D); break; } }
    return b; }
};
static const char *const kindNames[] = {"kmeans float", "kmeans double", "GMM float", "GMM double", "kd-forest float", "kd-forest double", "scale space", "SIFT", "DSIFT", "HOG", "LIOP", "LBP", "MSER", "covariant detector", "quick shift", "integer k-means", "hierarchical k-means", "SVM", "functions"};
static const int numKinds = sizeof kindNames / sizeof *kindNames;
static inline Obj *make(int kind, uint64_t seed) { St s(seed); switch (kind) { case 0: return new KMeans<float>(s); case 1: return new KMeans<double>(s); case 2: return new GMM<float>(s); case 3: return new GMM<double>(s); case 4: return new Forest<float>(s); case 5: return new Forest<double>(s); case 6: return new Scale(s); case 7: return new Sift(s); case 8: return new Dsift(s); case 9: return new Hog(s); case 10: return new Liop(s); case 11: return new Lbp(s); case 12: return new Mser(s); case 13: return new Cov(s); case 14: return new Qs(s); case 15: return new Ikm(s); case 16: return new Hikm(s); case 17: return new Svm(s); default: return new Functions(s); } }
