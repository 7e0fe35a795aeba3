/* Learning algorithms of the C library called directly, with the options spelled out:
   the reference of the toolbox interfaces.  Results go to vt_out[k][0..vt_n[k]). */
#include <vl/kmeans.h>
#include <vl/gmm.h>
#include <vl/fisher.h>
#include <vl/vlad.h>
#include <vl/kdtree.h>
#include <vl/homkermap.h>
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
#include <vl/aib.h>
#include <vl/svm.h>
#include <vl/random.h>
#include <vl/rodrigues.h>
#include <stdlib.h>
#include <string.h>
#define K_ 12
double *vt_out[K_]; long vt_n[K_]; static long cap[K_];
static void reset(void) { for (int k = 0; k < K_; ++k) vt_n[k] = 0; }
static void put(int k, double v) {
  if (vt_n[k] == cap[k]) { cap[k] = cap[k] ? 2 * cap[k] : 1024; vt_out[k] = realloc(vt_out[k], cap[k] * sizeof(double)); }
  vt_out[k][vt_n[k]++] = v;
}
static void putx(int k, void const *v, vl_type t, long n) { for (long i = 0; i < n; ++i) put(k, t == VL_TYPE_FLOAT ? ((float const *)v)[i] : ((double const *)v)[i]); }
static void putu(int k, vl_uint32 const *v, long n) { for (long i = 0; i < n; ++i) put(k, v[i]); }
static void puti(int k, vl_int32 const *v, long n) { for (long i = 0; i < n; ++i) put(k, v[i]); }
void vt_seed(unsigned s) { vl_rand_seed(vl_get_rand(), s); }
void vt_rand(int n) { reset(); for (int i = 0; i < n; ++i) put(0, vl_rand_res53(vl_get_rand())); }

/* p: algorithm init maxIterations repetitions maxComparisons trees; negative: library default kept */
void vt_kmeans(int type, int dist, int const *p, double mev, void const *x, int d, int n, int k) {
  VlKMeans *m = vl_kmeans_new(type, dist); reset();
  vl_kmeans_set_algorithm(m, p[0]); vl_kmeans_set_initialization(m, p[1]);
  vl_kmeans_set_max_num_iterations(m, p[2]); vl_kmeans_set_num_repetitions(m, p[3]); vl_kmeans_set_max_num_comparisons(m, p[4]); vl_kmeans_set_num_trees(m, p[5]);
  if (mev >= 0) vl_kmeans_set_min_energy_variation(m, mev);
  put(2, vl_kmeans_cluster(m, x, d, n, k));
  putx(0, vl_kmeans_get_centers(m), type, d * k);
  vl_uint32 *a = malloc(sizeof(*a) * n); vl_kmeans_quantize(m, a, NULL, x, n); putu(1, a, n); free(a);
  vl_kmeans_delete(m);
}
void vt_gmm(int type, int init, int maxit, int reps, double bound, double const *bounds, void const *mu, void const *cov, void const *pri, void const *x, int d, int n, int k) {
  VlGMM *g = vl_gmm_new(type, d, k); reset();
  vl_gmm_set_max_num_iterations(g, maxit); vl_gmm_set_num_repetitions(g, reps); vl_gmm_set_initialization(g, init);
  if (bounds) vl_gmm_set_covariance_lower_bounds(g, bounds); else if (bound >= 0) vl_gmm_set_covariance_lower_bound(g, bound);
  if (mu) { vl_gmm_set_means(g, mu); vl_gmm_set_covariances(g, cov); vl_gmm_set_priors(g, pri); }
  put(3, vl_gmm_cluster(g, x, n));
  putx(0, vl_gmm_get_means(g), type, d * k); putx(1, vl_gmm_get_covariances(g), type, d * k); putx(2, vl_gmm_get_priors(g), type, k); putx(4, vl_gmm_get_posteriors(g), type, n * k);
  vl_gmm_delete(g);
}
void vt_fisher(int type, void const *mu, void const *cov, void const *pri, void const *x, int d, int n, int k, int flags) {
  void *e = calloc(2 * d * k + 1, 8); reset(); vl_fisher_encode(e, type, mu, d, k, cov, pri, x, n, flags); putx(0, e, type, 2 * d * k); free(e);
}
void vt_vlad(int type, void const *mu, void const *a, void const *x, int d, int n, int k, int flags) {
  void *e = calloc(d * k + 1, 8); reset(); vl_vlad_encode(e, type, mu, d, k, x, n, a, flags); putx(0, e, type, d * k); free(e);
}
void vt_kdtree(int type, int dist, int trees, int method, void const *x, int d, int n, int maxc, int nn, void const *q, int nq) {
  VlKDForest *f = vl_kdforest_new(type, d, trees, dist); reset();
  vl_kdforest_set_thresholding_method(f, method); vl_kdforest_build(f, n, x);
  for (int t = 0; t < trees; ++t) {
    VlKDTree *T = f->trees[t];
    put(8, T->numUsedNodes);
    for (vl_size i = 0; i < T->numUsedNodes; ++i) { VlKDTreeNode *o = T->nodes + i; put(2, o->lowerChild); put(3, o->upperChild); put(4, o->splitDimension); put(5, o->splitThreshold); put(6, o->lowerBound); put(7, o->upperBound); }
    for (int i = 0; i < n; ++i) put(9, T->dataIndex[i].index);
  }
  vl_kdforest_set_max_num_comparisons(f, maxc);
  vl_uint32 *ix = malloc(sizeof(*ix) * (nn * nq + 1)); void *ds = malloc(8 * (nn * nq + 1));
  vl_kdforest_query_with_array(f, ix, nn, nq, ds, q); for (int i = 0; i < nn * nq; ++i) put(0, (vl_uint32)(ix[i] + 1)); putx(1, ds, type, nn * nq);
  free(ix); free(ds); vl_kdforest_delete(f);
}
void vt_homkermap(int type, int kern, double gamma, int order, double period, int win, void const *x, int n) {
  VlHomogeneousKernelMap *m = vl_homogeneouskernelmap_new(kern, gamma, order, period, win); int D = 2 * order + 1; reset();
  for (int i = 0; i < n; ++i) {
    double v[256]; float w[256];
    if (type == VL_TYPE_FLOAT) { vl_homogeneouskernelmap_evaluate_f(m, w, 1, ((float const *)x)[i]); putx(0, w, type, D); }
    else { vl_homogeneouskernelmap_evaluate_d(m, v, 1, ((double const *)x)[i]); putx(0, v, type, D); }
  }
  vl_homogeneouskernelmap_delete(m);
}
void vt_ikm(int method, int maxit, vl_uint8 const *x, int m, int n, int k) {
  VlIKMFilt *f = vl_ikm_new(method); vl_uint32 *a = malloc(sizeof(*a) * (n + 1)); reset();
  vl_ikm_set_max_niters(f, maxit); vl_ikm_init_rand_data(f, x, m, n, k); vl_ikm_train(f, x, n); vl_ikm_push(f, a, x, n);
  puti(0, vl_ikm_get_centers(f), m * k); putu(1, a, n); free(a); vl_ikm_delete(f);
}
static void walk(VlHIKMNode *o) {
  int k = vl_ikm_get_K(o->filter), m = vl_ikm_get_ndims(o->filter);
  put(3, k); put(4, o->children != 0); puti(2, vl_ikm_get_centers(o->filter), m * k);
  if (o->children) for (int i = 0; i < k; ++i) walk(o->children[i]);
}
void vt_hikm(int method, int maxit, int k, int depth, vl_uint8 const *x, int m, int n, vl_uint8 const *y, int n2) {
  VlHIKMTree *t = vl_hikm_new(method); vl_uint32 *a = malloc(sizeof(*a) * (n + n2 + 1) * depth); reset();
  vl_hikm_set_max_niters(t, maxit); vl_hikm_init(t, m, k, depth); vl_hikm_train(t, x, n);
  vl_hikm_push(t, a, x, n); for (int i = 0; i < n * depth; ++i) put(0, (vl_uint32)(a[i] + 1));
  vl_hikm_push(t, a, y, n2); for (int i = 0; i < n2 * depth; ++i) put(1, (vl_uint32)(a[i] + 1));
  walk((VlHIKMNode *)vl_hikm_get_root(t)); free(a); vl_hikm_delete(t);
}
void vt_aib(double *pcx, int nvalues, int nlabels) {
  VlAIB *a = vl_aib_new(pcx, nvalues, nlabels); reset(); vl_aib_process(a);
  putu(0, vl_aib_get_parents(a), 2 * nvalues - 1); putx(1, vl_aib_get_costs(a), VL_TYPE_DOUBLE, nvalues); vl_aib_delete(a);
}
/* p: epsilon maxIterations biasMultiplier biasLearningRate diagnosticFrequency startingIteration bias (NaN: default); h: kernel gamma order period window (null: none) */
static int ndiag; static void diag(VlSvm *s, void *u) { ++ndiag; }
void vt_svm(int solver, int loss, double lambda, int type, void const *x, int d, int n, double const *y, double const *p, double const *w, double const *model, double const *h) {
  VlSvmDataset *D = vl_svmdataset_new(type, (void *)x, d, n); VlHomogeneousKernelMap *m = 0; VlSvm *s; reset(); ndiag = 0;
  if (h) { m = vl_homogeneouskernelmap_new(h[0], h[1], h[2], h[3], h[4]); vl_svmdataset_set_homogeneous_kernel_map(D, m); }
  s = vl_svm_new_with_dataset(solver, D, y, lambda);
  if (p[0] == p[0]) vl_svm_set_epsilon(s, p[0]);
  if (p[1] == p[1]) vl_svm_set_max_num_iterations(s, p[1]);
  if (p[2] == p[2]) vl_svm_set_bias_multiplier(s, p[2]);
  if (p[3] == p[3]) vl_svm_set_bias_learning_rate(s, p[3]);
  if (p[4] == p[4]) vl_svm_set_diagnostic_frequency(s, p[4]);
  if (p[5] == p[5]) vl_svm_set_iteration_number(s, p[5]);
  if (p[6] == p[6]) vl_svm_set_bias(s, p[6]);
  if (model) vl_svm_set_model(s, model);
  if (w) vl_svm_set_weights(s, w);
  vl_svm_set_loss(s, loss); vl_svm_set_diagnostic_function(s, diag, 0);
  vl_svm_train(s);
  VlSvmStatistics const *t = vl_svm_get_statistics(s);
  putx(0, vl_svm_get_model(s), VL_TYPE_DOUBLE, vl_svm_get_dimension(s)); put(1, vl_svm_get_bias(s)); putx(2, vl_svm_get_scores(s), VL_TYPE_DOUBLE, n);
  put(3, t->objective); put(3, t->regularizer); put(3, t->loss); put(3, t->dualObjective); put(3, t->dualLoss); put(3, t->dualityGap); put(3, t->scoresVariation); put(3, t->iteration); put(3, t->epoch); put(3, vl_svm_get_lambda(s)); put(3, vl_svm_get_bias_multiplier(s)); put(3, ndiag);
  vl_svm_delete(s); vl_svmdataset_set_homogeneous_kernel_map(D, 0); if (m) vl_homogeneouskernelmap_delete(m); vl_svmdataset_delete(D);
}
void vt_rodr(double const *om, int n) { reset(); for (int i = 0; i < n; ++i) { double R[9], dR[27]; vl_rodrigues(R, dR, om + 3 * i); putx(0, R, VL_TYPE_DOUBLE, 9); putx(1, dR, VL_TYPE_DOUBLE, 27); } }
void vt_irodr(double const *R, int n) { reset(); for (int i = 0; i < n; ++i) { double om[3], dom[27]; vl_irodrigues(om, dom, R + 9 * i); putx(0, om, VL_TYPE_DOUBLE, 3); putx(1, dom, VL_TYPE_DOUBLE, 27); } }
