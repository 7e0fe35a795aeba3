// L01: SVM training.
#include "vt.h"
#include "vl_all.h"
typedef std::vector<double> dvec;
typedef double (*F2)(double, double);
typedef double (*F4)(double, double, double, double);
struct Loss { const char *name; F2 loss, der, conj; F4 dca; VlSvmLossType type; };
static const Loss L[] = {{"hinge", vl_svm_hinge_loss, vl_svm_hinge_loss_derivative, vl_svm_hinge_conjugate_loss, vl_svm_hinge_dca_update, VlSvmLossHinge}, {"hinge2", vl_svm_hinge2_loss, vl_svm_hinge2_loss_derivative, vl_svm_hinge2_conjugate_loss, vl_svm_hinge2_dca_update, VlSvmLossHinge2}, {"l1", vl_svm_l1_loss, vl_svm_l1_loss_derivative, vl_svm_l1_conjugate_loss, vl_svm_l1_dca_update, VlSvmLossL1}, {"l2", vl_svm_l2_loss, vl_svm_l2_loss_derivative, vl_svm_l2_conjugate_loss, vl_svm_l2_dca_update, VlSvmLossL2}, {"logistic", vl_svm_logistic_loss, vl_svm_logistic_loss_derivative, vl_svm_logistic_conjugate_loss, vl_svm_logistic_dca_update, VlSvmLossLogistic}};
static double refLoss(int t, double z, double y) { switch (t) { case 0: return std::max(0.0, 1 - y * z); case 1: { double a = std::max(0.0, 1 - y * z); return a * a; } case 2: return fabs(y - z); case 3: return (y - z) * (y - z); } double m = y * z; return m > 0 ? log1p(exp(-m)) : -m + log1p(exp(m)); }
static double xlx(double x) { return x <= 0 ? 0 : x * log(x); }
static double refConj(int t, double u, double y) { double a = y * u; switch (t) { case 0: return a >= -1 && a <= 0 ? a : INFINITY; case 1: return a <= 0 ? a + u * u / 4 : INFINITY; case 2: return fabs(u) <= 1 ? a : INFINITY; case 3: return a + u * u / 4; } return a >= -1 && a <= 0 ? xlx(-a) + xlx(1 + a) : INFINITY; }
// ------------------------------------------------------------------ problem
struct HomDel { void operator()(VlHomogeneousKernelMap *h) { vl_homogeneouskernelmap_delete(h); } }; struct DsDel { void operator()(VlSvmDataset *h) { vl_svmdataset_delete(h); } }; struct SvmDel { void operator()(VlSvm *h) { vl_svm_delete(h); } };
struct Problem { int t, n, d0, d; double lambda, B; dvec raw, X, y, p; std::vector<float> rawf; bool weighted; int access; std::unique_ptr<VlHomogeneousKernelMap, HomDel> hom; std::unique_ptr<VlSvmDataset, DsDel> ds; double xmax = 0, pmax = 1, Nn = 0; };
static double dotx(const Problem &P, int i, const double *w) { double s = 0; for (int k = 0; k < P.d; ++k) s += P.X[(size_t)i * P.d + k] * w[k]; return s; }
static double absInner(void const *data, vl_uindex e, double *m) { return dotx(*(Problem const *)data, (int)e, m); }
static void absAcc(void const *data, vl_uindex e, double *m, double mu) { Problem const &P = *(Problem const *)data; for (int k = 0; k < P.d; ++k) m[k] += mu * P.X[e * P.d + k]; }
static void draw(vt::Ctx &c, Problem &P) {
  P.t = (int)c.i(0, 4); P.n = (int)c.pick({4, 1, 2, 3, 6, 10, 20}); P.d0 = (int)c.pick({2, 1, 3, 5, 8}); P.lambda = c.chance(1, 4) ? pow(10.0, c.real(-4, 1)) : c.pick({0.1, 1.0, 0.01, 0.5}); P.B = c.pick({1.0, 0.0, 0.3, 2.0}); P.access = (int)c.i(0, 4); vt::Stream s = c.stream(); int kind = (int)c.i(0, 3); P.weighted = c.b();
  double sc = c.pick({1.0, 0.1, 3.0}); if (P.access == 4) sc = 1; bool classification = P.t == 0 || P.t == 1 || P.t == 4 || c.chance(1, 3);
  P.raw.resize((size_t)P.n * P.d0); P.y.resize(P.n); dvec cdir(P.d0); for (double &v : cdir) v = s.gauss(); double ysc = c.pick({1.0, 5.0}); bool oneClass = c.chance(1, 10);
  for (int i = 0; i < P.n; ++i) { double q = 0, nn = 0; for (int k = 0; k < P.d0; ++k) { double v = s.gauss(); if (kind == 1 && s.below(3) == 0) v = 0; if (kind == 2) v = (double)s.range(-2, 2); P.raw[i * P.d0 + k] = v; nn += v * v; } nn = sqrt(nn); for (int k = 0; k < P.d0; ++k) { double &v = P.raw[i * P.d0 + k]; v *= sc / (nn > 0 ? nn : 1) * (0.3 + 0.7 * (kind == 3 ? 1 : s.uni())); q += v * cdir[k]; } if (kind == 2 && i && s.below(4) == 0) for (int k = 0; k < P.d0; ++k) P.raw[i * P.d0 + k] = P.raw[(i - 1) * P.d0 + k]; P.y[i] = classification ? (oneClass ? 1 : s.below(5) == 0 ? (s.below(2) ? 1 : -1) : q > 0 ? 1 : -1) : s.below(6) == 0 ? 0 : ysc * (q + 0.2 * s.gauss()); }
  if (P.weighted) for (int i = 0; i < P.n; ++i) P.p.push_back(s.below(6) == 0 ? 0.0 : s.below(2) ? s.real(0.01, 3) : (s.below(2) ? 1.0 : s.real(0.1, 0.9))); c.note("%s loss %d x %d lambda %g bias multiplier %g access %d%s", L[P.t].name, P.n, P.d0, P.lambda, P.B, P.access, P.weighted ? " weighted" : "");
  P.d = P.d0; P.rawf.assign(P.raw.begin(), P.raw.end()); bool flt = P.access == 2 || P.access == 3; if (P.access >= 2) { P.ds.reset(vl_svmdataset_new(flt ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, flt ? (void *)P.rawf.data() : (void *)P.raw.data(), P.d0, P.n)); if (P.access >= 3) { P.hom.reset(vl_homogeneouskernelmap_new(VlHomogeneousKernelChi2, 1, 1, -1, VlHomogeneousKernelMapWindowRectangular)); vl_svmdataset_set_homogeneous_kernel_map(P.ds.get(), P.hom.get()); P.d = 3 * P.d0; } }
  P.X.clear(); for (size_t j = 0; j < P.raw.size(); ++j) { if (P.access < 2) P.X.push_back(P.raw[j]); else if (P.access == 2) P.X.push_back(P.rawf[j]); else if (flt) { float b[3]; vl_homogeneouskernelmap_evaluate_f(P.hom.get(), b, 1, P.rawf[j]); for (float v : b) P.X.push_back(v); } else { double b[3]; vl_homogeneouskernelmap_evaluate_d(P.hom.get(), b, 1, P.raw[j]); for (double v : b) P.X.push_back(v); } }
  for (int i = 0; i < P.n; ++i) { P.xmax = std::max(P.xmax, sqrt(dotx(P, i, &P.X[(size_t)i * P.d]) + P.B * P.B)); if (P.weighted) P.pmax = std::max(P.pmax, P.p[i]); }
}
static VlSvm *make(Problem &P, VlSvmSolverType solver) { VlSvm *s = P.access == 0 ? vl_svm_new(solver, P.raw.data(), P.d, P.n, P.y.data(), P.lambda) : P.access == 1 ? vl_svm_new_with_abstract_data(solver, &P, P.d, P.n, P.y.data(), P.lambda) : vl_svm_new_with_dataset(solver, P.ds.get(), P.y.data(), P.lambda); if (P.access == 1) vl_svm_set_data_functions(s, absInner, absAcc); vl_svm_set_loss(s, L[P.t].type); vl_svm_set_bias_multiplier(s, P.B); if (P.weighted) vl_svm_set_weights(s, P.p.data()); return s; }
static double weight(const Problem &P, int i) { return P.weighted ? std::max(0.0, P.p[i]) : 1.0; }
static double primal(const Problem &P, const double *w, double bias, double *reg = nullptr, double *loss = nullptr) { double r = 0, l = 0; for (int k = 0; k < P.d; ++k) r += w[k] * w[k]; if (P.B) r += bias * bias / (P.B * P.B); r *= P.lambda / 2; for (int i = 0; i < P.n; ++i) l += weight(P, i) * refLoss(P.t, dotx(P, i, w) + bias, P.y[i]); l /= P.n; if (reg) *reg = r; if (loss) *loss = l; return r + l; }
static bool close(double a, double b, double rel, double abs_) { return a == b || fabs(a - b) <= rel * (fabs(a) + fabs(b)) + abs_; }
static void checkFinal(vt::Ctx &c, const Problem &P, VlSvm *s, const VlSvmStatistics &st) {
  double const *w = vl_svm_get_model(s); double b = vl_svm_get_bias(s), reg, loss, obj = primal(P, w, b, &reg, &loss); for (int k = 0; k < P.d; ++k) VT_ASSERT(c, std::isfinite(w[k]), "model component %d is %g", k, w[k]); VT_ASSERT(c, std::isfinite(b), "bias is %g", b); VT_ASSERT(c, P.B || b == 0, "bias %g although disabled", b);
  VT_ASSERT(c, close(st.regularizer, reg, 1e-11, 1e-14) && close(st.loss, loss, 1e-11, 1e-13 * (1 + sqrt(obj) + obj)) && close(st.objective, obj, 1e-11, 1e-13 * (1 + sqrt(obj) + obj)), "statistics (regularizer %.15g, loss %.15g, objective %.15g) are not those of the returned model (%.15g, %.15g, %.15g)", st.regularizer, st.loss, st.objective, reg, loss, obj);
  for (int i = 0; i < P.n; ++i) { double sc = fabs(b); for (int k = 0; k < P.d; ++k) sc += fabs(w[k] * P.X[(size_t)i * P.d + k]); VT_ASSERT(c, fabs(vl_svm_get_scores(s)[i] - dotx(P, i, w) - b) <= 1e-12 * sc + 1e-300, "score of sample %d (weight %g) is %.15g, the model gives %.15g", i, weight(P, i), vl_svm_get_scores(s)[i], dotx(P, i, w) + b); } VT_ASSERT(c, st.elapsedTime >= 0 && st.elapsedTime < 60, "elapsed time %g", st.elapsedTime);
}
// ------------------------------------------------------------------ tracing
struct Call { int idx; double alpha, inner, norm2, label, out; };
static struct { VlSvmInnerProductFunction inner; int last; const Loss *loss; std::vector<Call> calls; std::vector<std::pair<VlSvmStatistics, size_t>> diags; } T;
static double wInner(void const *data, vl_uindex e, double *m) { T.last = (int)e; return T.inner(data, e, m); }
static double wDer(double inner, double label) { double g = T.loss->der(inner, label); T.calls.push_back({T.last, 0, inner, 0, label, g}); return g; }
static double wDca(double alpha, double inner, double norm2, double label) { double g = T.loss->dca(alpha, inner, norm2, label); T.calls.push_back({T.last, alpha, inner, norm2, label, g}); return g; }
static void wDiag(struct VlSvm_ *s, void *d) { *(int *)d += 1; T.diags.push_back({*vl_svm_get_statistics(s), T.calls.size()}); }
static void trace(Problem &P, VlSvm *s, bool wrap) { T.calls.clear(); T.diags.clear(); T.last = -1; T.loss = &L[P.t]; if (!wrap) return; T.inner = P.access == 1 ? absInner : P.ds ? vl_svmdataset_get_inner_product_function(P.ds.get()) : nullptr; if (!T.inner) { static double dummy; VlSvmDataset *d = vl_svmdataset_new(VL_TYPE_DOUBLE, &dummy, 1, 1); T.inner = vl_svmdataset_get_inner_product_function(d); vl_svmdataset_set_homogeneous_kernel_map(d, nullptr); VlSvmAccumulateFunction a = vl_svmdataset_get_accumulate_function(d); vl_svmdataset_delete(d); vl_svm_set_data_functions(s, wInner, a); } else vl_svm_set_data_functions(s, wInner, P.access == 1 ? absAcc : vl_svmdataset_get_accumulate_function(P.ds.get())); vl_svm_set_loss_derivative_function(s, wDer); vl_svm_set_dca_update_function(s, wDca); }
static void checkOrder(vt::Ctx &c, const Problem &P, size_t from, size_t to, bool positiveOnly) { int m = 0; for (int i = 0; i < P.n; ++i) if (!positiveOnly || weight(P, i) > 0) ++m; for (size_t a = from; a < to; a += m) { std::set<int> seen; for (size_t k = a; k < std::min(to, a + m); ++k) VT_ASSERT(c, seen.insert(T.calls[k].idx).second, "sample %d visited twice within an epoch", T.calls[k].idx); if (m == 0) break; } }
static void checkStatus(vt::Ctx &c, VlSvm *s, size_t first, double crit(const VlSvmStatistics &), int n) { size_t f = vl_svm_get_diagnostic_frequency(s), mx = vl_svm_get_max_num_iterations(s); double eps = vl_svm_get_epsilon(s); VT_ASSERT(c, T.diags.size() > first, "diagnostic never called"); size_t t = 0; for (size_t k = first; k < T.diags.size(); ++k) { const VlSvmStatistics &d = T.diags[k].first; do ++t; while (t % f && t != mx); bool last = k + 1 == T.diags.size(); VT_ASSERT(c, d.iteration == t - 1 && d.epoch == (t - 1) / n, "diagnostic reports iteration %llu epoch %llu, should be %zu", (unsigned long long)d.iteration, (unsigned long long)d.epoch, t - 1); VlSvmSolverStatus want = crit(d) < eps ? VlSvmStatusConverged : t == mx ? VlSvmStatusMaxNumIterationsReached : VlSvmStatusTraining; VT_ASSERT(c, d.status == want, "status %d at iteration %zu, should be %d (criterion %g tolerance %g)", d.status, t - 1, want, crit(d), eps); VT_ASSERT(c, (want != VlSvmStatusTraining) == last, "training %s", last ? "stops early" : "goes on"); }
  VlSvmStatistics const *st = vl_svm_get_statistics(s); VT_ASSERT(c, !memcmp(st, &T.diags.back().first, sizeof *st), "statistics differ from those of the last diagnostic"); }
static void defaults(vt::Ctx &c, const Problem &P, VlSvm *s, VlSvmSolverType type) { VT_ASSERT(c, vl_svm_get_solver(s) == type && vl_svm_get_dimension(s) == (vl_size)P.d && vl_svm_get_num_data(s) == (vl_size)P.n && vl_svm_get_lambda(s) == P.lambda && vl_svm_get_weights(s) == (P.weighted ? P.p.data() : nullptr) && vl_svm_get_bias_multiplier(s) == P.B, "stored parameters"); VT_ASSERT(c, vl_svm_get_epsilon(s) == 0.01 && vl_svm_get_diagnostic_frequency(s) == (vl_size)P.n && vl_svm_get_bias(s) == 0, "default parameters"); double m = std::max((double)P.n, ceil((double)(float)(10.0 / P.lambda))); VT_ASSERT(c, (double)vl_svm_get_max_num_iterations(s) == m, "default iteration limit %llu, should be %g", (unsigned long long)vl_svm_get_max_num_iterations(s), m); }
static double gapOf(const VlSvmStatistics &d) { return d.dualityGap; }
static double varOf(const VlSvmStatistics &d) { return d.scoresVariation; }
static void params(vt::Ctx &c, VlSvm *s, int n) { if (c.b()) vl_svm_set_epsilon(s, c.pick({1e-3, 1e-6, 0.0, 1e-1})); if (c.chance(1, 3)) vl_svm_set_diagnostic_frequency(s, (vl_size)c.pick({1, 2, n, 3 * n, 7})); vl_svm_set_max_num_iterations(s, (vl_size)c.pick({std::min<int>(20 * n, 400), 1, 3, n, 5 * n, 60 * n})); }
VT_CHECK(sdca, 150000, 2000000, "at least two epochs") {
  Problem P; draw(c, P); std::unique_ptr<VlSvm, SvmDel> own(make(P, VlSvmSolverSdca)); VlSvm *s = own.get(); defaults(c, P, s, VlSvmSolverSdca); bool wrap = c.b(); params(c, s, P.n); int calls = 0; vl_svm_set_diagnostic_function(s, wDiag, &calls); vl_rand_seed(vl_get_rand(), (vl_uint32)c.draw(1000)); trace(P, s, wrap); int rounds = c.chance(1, 4) ? 2 : 1; dvec alpha(P.n, 0.0), w(P.d, 0.0), wa(P.d, 0.0); double wb = 0, wba = 0; size_t at = 0, ops = 0;
  for (int r = 0; r < rounds; ++r) { size_t d0 = T.diags.size(), c0 = T.calls.size(); vl_svm_train(s); VT_ASSERT(c, (size_t)calls == T.diags.size(), "diagnostic data"); checkStatus(c, s, d0, gapOf, P.n); const VlSvmStatistics &st = *vl_svm_get_statistics(s); if (st.iteration + 1 >= (vl_size)2 * P.n) c.nontrivial(); double psum = 0; for (int i = 0; i < P.n; ++i) psum += weight(P, i); double sc = fabs(st.objective) + fabs(st.dualObjective) + 1e-9 * psum;
    VT_ASSERT(c, st.dualityGap >= -1e-11 * sc - 4e-9 * psum / P.n, "duality gap is %g", st.dualityGap); VT_ASSERT(c, close(st.dualityGap, st.objective - st.dualObjective, 0, 1e-12 * sc) && close(st.dualObjective, st.dualLoss - st.regularizer, 0, 1e-12 * sc), "gap, primal and dual objective disagree"); VT_ASSERT(c, std::isfinite(st.dualObjective), "dual objective %g (objective %g)", st.dualObjective, st.objective); VT_ASSERT(c, T.diags.size() > d0, "."); for (size_t k = d0 + 1; k < T.diags.size(); ++k) if (P.t != 4) VT_ASSERT(c, T.diags[k].first.dualObjective >= T.diags[k - 1].first.dualObjective - 1e-11 * sc, "dual objective decreases from %.15g to %.15g", T.diags[k - 1].first.dualObjective, T.diags[k].first.dualObjective); checkFinal(c, P, s, st);
    // weak duality: no model beats the dual objective
    { vt::Stream q(st.iteration + 77); dvec w2(P.d); for (int k = 0; k < 12; ++k) { double b2 = vl_svm_get_bias(s), am = k < 4 ? 0.01 : k < 8 ? 0.2 : 2; for (int j = 0; j < P.d; ++j) w2[j] = k == 11 ? 0 : vl_svm_get_model(s)[j] * (k % 2 ? 1 : 0.7) + am * q.gauss(); b2 = k == 11 ? 0 : P.B ? b2 + am * q.gauss() : 0; VT_ASSERT(c, primal(P, w2.data(), b2) >= st.dualObjective - 1e-11 * sc - 4e-9 * psum / P.n, "dual objective %.12g exceeds the objective %.12g of another model", st.dualObjective, primal(P, w2.data(), b2)); } }
    if (!wrap) continue; checkOrder(c, P, c0, T.calls.size(), true);
    for (; at < T.calls.size(); ++at) { const Call &k = T.calls[at]; int i = k.idx; double p = weight(P, i), n2 = p * (dotx(P, i, &P.X[(size_t)i * P.d]) + P.B * P.B) / (P.lambda * P.n), in = dotx(P, i, w.data()) + wb * P.B, ia = wba * P.B; for (int j = 0; j < P.d; ++j) ia += fabs(wa[j] * P.X[(size_t)i * P.d + j]); VT_ASSERT(c, p > 0, "sample %d of zero weight used", i); VT_ASSERT(c, k.label == P.y[i] && close(k.norm2, n2, 1e-12, 0), "update %zu of sample %d: label %g norm %.15g, should be %g and %.15g", at, i, k.label, k.norm2, P.y[i], n2); VT_ASSERT(c, fabs(k.inner - in) <= 1e-14 * (ops + 20) * ia + 1e-300, "update %zu of sample %d: score %.15g, should be %.15g", at, i, k.inner, in); VT_ASSERT(c, fabs(k.alpha - alpha[i]) <= 1e-13 * (ops + 4) * (1 + fabs(alpha[i])), "update %zu of sample %d: dual variable %.15g, should be %.15g", at, i, k.alpha, alpha[i]); VT_ASSERT(c, std::isfinite(k.out), "update %zu of sample %d (dual variable %.17g) is %g", at, i, k.alpha, k.out); alpha[i] = k.alpha + k.out; double m = p * k.out / (P.lambda * P.n); for (int j = 0; j < P.d; ++j) { w[j] += m * P.X[(size_t)i * P.d + j]; wa[j] += fabs(m * P.X[(size_t)i * P.d + j]); } wb += m * P.B; wba += fabs(m * P.B); ++ops; }
    for (int j = 0; j < P.d; ++j) VT_ASSERT(c, fabs(vl_svm_get_model(s)[j] - w[j]) <= 1e-14 * (ops + 20) * wa[j], "model component %d is %.15g, should be %.15g", j, vl_svm_get_model(s)[j], w[j]); VT_ASSERT(c, fabs(vl_svm_get_bias(s) - wb * P.B) <= 1e-14 * (ops + 20) * wba * P.B, "bias is %.15g, should be %.15g", vl_svm_get_bias(s), wb * P.B); double dl = 0, da = 0; for (int i = 0; i < P.n; ++i) if (weight(P, i) > 0) { double v = weight(P, i) * refConj(P.t, -alpha[i], P.y[i]); if (std::isinf(v)) { dl = NAN; break; } dl -= v; da += fabs(v) + weight(P, i) * 1e-8; } if (!std::isnan(dl)) VT_ASSERT(c, fabs(st.dualLoss - dl / P.n) <= 1e-11 * da + 4e-9 * psum / P.n, "dual loss is %.15g, should be %.15g", st.dualLoss, dl / P.n); }
  // the wrappers change nothing: the built-in loss selection does the same
  if (wrap && rounds == 1) { std::unique_ptr<VlSvm, SvmDel> o2(make(P, VlSvmSolverSdca)); vl_svm_set_epsilon(o2.get(), vl_svm_get_epsilon(s)); vl_svm_set_max_num_iterations(o2.get(), vl_svm_get_max_num_iterations(s)); vl_svm_set_diagnostic_frequency(o2.get(), vl_svm_get_diagnostic_frequency(s)); (void)0; vl_svm_train(o2.get()); const VlSvmStatistics &a = *vl_svm_get_statistics(s), &b = *vl_svm_get_statistics(o2.get()); if (a.status == VlSvmStatusConverged && b.status == VlSvmStatusConverged) { double e = a.dualityGap + b.dualityGap + 1e-11 * (a.objective + b.objective) + 1e-8 * P.pmax; VT_ASSERT(c, fabs(a.objective - b.objective) <= e, "two trainings converge to objectives %.12g and %.12g with gaps %g and %g", a.objective, b.objective, a.dualityGap, b.dualityGap); c.label("two visiting orders"); } }
}
VT_CHECK(sdca_convergence, 25000, 400000, "not solved by the null model") { // a tight tolerance is reached and the optimum is the true one
  Problem P; draw(c, P); P.lambda = std::max(P.lambda, 0.01); std::unique_ptr<VlSvm, SvmDel> own(make(P, VlSvmSolverSdca)); VlSvm *s = own.get(); double eps = P.t == 4 ? 3e-3 * std::max(1.0, primal(P, dvec(P.d, 0.0).data(), 0)) : 1e-6; vl_svm_set_epsilon(s, eps); vl_svm_set_max_num_iterations(s, 4000000); vl_rand_seed(vl_get_rand(), 3); vl_svm_train(s); const VlSvmStatistics &st = *vl_svm_get_statistics(s); if (st.status != VlSvmStatusConverged && P.t == 4 && P.pmax * P.xmax * P.xmax / (P.lambda * P.n) > 10) { c.label("undecided: approximate logistic updates of long vectors"); return; } if (st.status != VlSvmStatusConverged && P.t != 4 && P.n + 5 * pow(P.xmax * P.pmax, 2) / (P.lambda * eps) > 1e6) { c.label("undecided: slow convergence"); return; } VT_ASSERT(c, st.status == VlSvmStatusConverged && st.dualityGap < eps, "not converged after %llu iterations (gap %g)", (unsigned long long)st.iteration, st.dualityGap); checkFinal(c, P, s, st); double J = st.objective, Z = primal(P, dvec(P.d, 0.0).data(), 0); VT_ASSERT(c, J <= Z + eps, "objective %g above that of the null model %g", J, Z); if (J < Z * 0.999) c.nontrivial(); c.label("%s %d epochs", L[P.t].name, 1 << (int)log2(1.0 + st.epoch));
  // stationarity by an independent local search around the model: no direction improves by more than the gap
  dvec w(vl_svm_get_model(s), vl_svm_get_model(s) + P.d); double b = vl_svm_get_bias(s); vt::Stream q(5); double best = J; dvec bw = w; double bb = b, step = 0.5; for (int k = 0; k < 300; ++k) { dvec u = bw; for (double &v : u) v += step * q.gauss(); double ub = P.B ? bb + step * P.B * q.gauss() : 0, v = primal(P, u.data(), ub); if (v < best) { best = v; bw = u; bb = ub; } else step *= 0.96; } VT_ASSERT(c, best >= J - eps - 1e-9 * J - 4e-9 * P.pmax, "objective %.12g is reached although the gap is %g and %.12g is possible", J, st.dualityGap, best);
  if (P.t == 3) { int D = P.d + 1; std::vector<dvec> A(D, dvec(D + 1, 0.0)); for (int i = 0; i < P.n; ++i) { dvec x(P.X.begin() + (size_t)i * P.d, P.X.begin() + (size_t)(i + 1) * P.d); x.push_back(P.B); for (int a = 0; a < D; ++a) { for (int e = 0; e < D; ++e) A[a][e] += 2 * weight(P, i) / P.n * x[a] * x[e]; A[a][D] += 2 * weight(P, i) / P.n * x[a] * P.y[i]; } } for (int a = 0; a < D; ++a) A[a][a] += P.lambda; for (int a = 0; a < D; ++a) { int pv = a; for (int e = a; e < D; ++e) if (fabs(A[e][a]) > fabs(A[pv][a])) pv = e; std::swap(A[a], A[pv]); for (int e = 0; e < D; ++e) if (e != a) { double f = A[e][a] / A[a][a]; for (int k = a; k <= D; ++k) A[e][k] -= f * A[a][k]; } } dvec ws(P.d); for (int a = 0; a < P.d; ++a) ws[a] = A[a][D] / A[a][a]; double bs = P.B * A[P.d][D] / A[P.d][P.d], js = primal(P, ws.data(), bs); VT_ASSERT(c, J >= js - 1e-10 * (1 + J) && J - js <= st.dualityGap + 1e-10 * (1 + J), "objective %.12g, gap %g, true minimum %.12g", J, st.dualityGap, js); c.label("closed form minimum"); }
}
VT_CHECK(sgd, 150000, 3000000, "at least two epochs") {
  Problem P; draw(c, P); if (P.t == 1 || P.t == 3) { // keep quadratic losses away from divergence
    if (P.xmax * P.xmax * P.pmax > 1) { c.label("undecided: diverging steps"); return; } }
  std::unique_ptr<VlSvm, SvmDel> own(make(P, VlSvmSolverSgd)); VlSvm *s = own.get(); defaults(c, P, s, VlSvmSolverSgd); VT_ASSERT(c, vl_svm_get_bias_learning_rate(s) == 0.01, "default bias learning rate"); params(c, s, P.n); double blr = c.pick({0.01, 1.0, 0.3, 0.0001}); vl_svm_set_bias_learning_rate(s, blr); VT_ASSERT(c, vl_svm_get_bias_learning_rate(s) == blr, "stored rate"); size_t warm = 0; dvec w(P.d, 0.0); double b = 0; vt::Stream q = c.stream(); if (c.b()) { c.label("warm start"); for (double &v : w) v = q.gauss(); vl_svm_set_model(s, w.data()); if (P.B) { b = q.gauss(); vl_svm_set_bias(s, b * P.B); VT_ASSERT(c, close(vl_svm_get_bias(s), b * P.B, 1e-15, 0), "bias not stored"); } warm = c.pick({0, 1, 17, 1000}); vl_svm_set_iteration_number(s, warm); VT_ASSERT(c, vl_svm_get_iteration_number(s) == warm, "iteration number not stored"); c.note("from iteration %zu", warm); }
  vl_uint32 sd = (vl_uint32)c.draw(1000); vl_rand_seed(vl_get_rand(), sd); int calls = 0; vl_svm_set_diagnostic_function(s, wDiag, &calls); trace(P, s, true); dvec w0 = w; double b0 = b; vl_svm_train(s); checkStatus(c, s, 0, varOf, P.n); const VlSvmStatistics st = *vl_svm_get_statistics(s); if (st.iteration + 1 >= (vl_size)2 * P.n) c.nontrivial(); checkFinal(c, P, s, st); VT_ASSERT(c, st.dualityGap == 0 && st.dualObjective == 0 && st.dualLoss == 0, "dual statistics set"); VT_ASSERT(c, T.calls.size() == st.iteration + 1, "%zu gradient evaluations in %llu iterations", T.calls.size(), (unsigned long long)st.iteration + 1); checkOrder(c, P, 0, T.calls.size(), false);
  double t0 = std::max(2.0, ceil(1 / P.lambda)); dvec wa(P.d), sc(P.n, 0.0), pr(P.n, -INFINITY); for (int j = 0; j < P.d; ++j) wa[j] = fabs(w[j]); double ba = fabs(b); size_t dg = 0; for (size_t t = 0; t < T.calls.size(); ++t) { const Call &k = T.calls[t]; int i = k.idx; double in = dotx(P, i, w.data()) + b * P.B, ia = ba * P.B; for (int j = 0; j < P.d; ++j) ia += fabs(wa[j] * P.X[(size_t)i * P.d + j]); VT_ASSERT(c, k.label == P.y[i], "label"); VT_ASSERT(c, fabs(k.inner - in) <= 1e-14 * (t + 20) * ia + 1e-300, "step %zu (sample %d): score is %.15g, should be %.15g", t, i, k.inner, in); double rate = 1 / (P.lambda * (t + t0 + warm)), g = weight(P, i) * k.out; for (int j = 0; j < P.d; ++j) { double dx = rate * g * P.X[(size_t)i * P.d + j]; w[j] = w[j] * (1 - P.lambda * rate) - dx; wa[j] = wa[j] * (1 - P.lambda * rate) + fabs(dx); } b = b * (1 - P.lambda * rate * blr) - rate * blr * g * P.B; ba = ba * (1 - P.lambda * rate * blr) + fabs(rate * blr * g * P.B); pr[i] = sc[i]; sc[i] = k.inner;
    if (dg < T.diags.size() && T.diags[dg].second == t + 1) { double v = 0; for (int z = 0; z < P.n; ++z) v += (sc[z] - pr[z]) * (sc[z] - pr[z]); v = sqrt(v) / P.n; VT_ASSERT(c, close(T.diags[dg].first.scoresVariation, v, 1e-12, 1e-300), "score variation %.15g, should be %.15g", T.diags[dg].first.scoresVariation, v); ++dg; } }
  for (int j = 0; j < P.d; ++j) VT_ASSERT(c, fabs(vl_svm_get_model(s)[j] - w[j]) <= 1e-14 * (T.calls.size() + 20) * wa[j] + 1e-300, "model component %d is %.15g, should be %.15g", j, vl_svm_get_model(s)[j], w[j]); VT_ASSERT(c, fabs(vl_svm_get_bias(s) - b * P.B) <= 1e-14 * (T.calls.size() + 20) * ba * P.B + 1e-300, "bias is %.15g, should be %.15g", vl_svm_get_bias(s), b * P.B);
  // same with the built-in selection of the loss
  std::unique_ptr<VlSvm, SvmDel> o2(make(P, VlSvmSolverSgd)); VlSvm *s2 = o2.get(); vl_svm_set_epsilon(s2, vl_svm_get_epsilon(s)); vl_svm_set_max_num_iterations(s2, vl_svm_get_max_num_iterations(s)); vl_svm_set_diagnostic_frequency(s2, vl_svm_get_diagnostic_frequency(s)); vl_svm_set_bias_learning_rate(s2, blr); vl_svm_set_model(s2, w0.data()); if (P.B) vl_svm_set_bias(s2, b0 * P.B); vl_svm_set_iteration_number(s2, warm); vl_rand_seed(vl_get_rand(), sd); vl_svm_train(s2); for (int j = 0; j < P.d; ++j) VT_ASSERT(c, vl_svm_get_model(s2)[j] == vl_svm_get_model(s)[j], "same training again gives another model");
}
VT_CHECK(sgd_convergence, 5000, 60000, "not solved by the null model") {
  Problem P; draw(c, P); P.lambda = std::max(P.lambda, 0.1); if ((P.t == 1 || P.t == 3) && P.xmax * P.xmax * P.pmax > 2) { c.label("undecided: long vectors"); return; } std::unique_ptr<VlSvm, SvmDel> o1(make(P, VlSvmSolverSdca)), o2(make(P, VlSvmSolverSgd)); vl_svm_set_epsilon(o1.get(), 1e-5); vl_svm_set_max_num_iterations(o1.get(), 1000000); vl_svm_train(o1.get()); double J = vl_svm_get_statistics(o1.get())->objective - vl_svm_get_statistics(o1.get())->dualityGap, Z = primal(P, dvec(P.d, 0.0).data(), 0); if (J < Z * 0.99) c.nontrivial(); VlSvm *s = o2.get(); size_t N = 60000; vl_svm_set_epsilon(s, 0); vl_svm_set_max_num_iterations(s, N); vl_svm_set_diagnostic_frequency(s, N); vl_svm_set_bias_learning_rate(s, 1); vl_svm_train(s); double G = 0; for (int i = 0; i < P.n; ++i) { double sc = fabs(vl_svm_get_scores(s)[i]) + 1; G = std::max(G, weight(P, i) * P.xmax * (P.t == 1 || P.t == 3 ? 2 * (fabs(P.y[i]) + sc) : 1)); } double bound = 4 * G * G * log((double)N) / (P.lambda * N); VT_ASSERT(c, vl_svm_get_statistics(s)->objective <= J + bound + 1e-5, "objective after %zu steps %.9g, minimum %.9g (bound %g)", N, vl_svm_get_statistics(s)->objective, J, bound); c.label("excess 10^%d of the bound", (int)floor(log10(1e-9 + std::max(0.0, vl_svm_get_statistics(s)->objective - J) / bound)));
}
VT_CHECK(evaluation, 50000, 500000, "non-zero model") {
  Problem P; draw(c, P); std::unique_ptr<VlSvm, SvmDel> own(make(P, VlSvmSolverNone)); VlSvm *s = own.get(); vt::Stream q = c.stream(); dvec w(P.d); for (double &v : w) v = c.b() ? 0 : q.gauss(); double b = P.B ? q.gauss() : 0; vl_svm_set_model(s, w.data()); vl_svm_set_bias(s, b); int calls = 0; T.diags.clear(); vl_svm_set_diagnostic_function(s, wDiag, &calls); vl_svm_train(s); for (double v : w) if (v) c.nontrivial(); VT_ASSERT(c, !memcmp(vl_svm_get_model(s), w.data(), P.d * sizeof(double)) && close(vl_svm_get_bias(s), b, 1e-15, 0), "evaluation changes the model"); const VlSvmStatistics &st = *vl_svm_get_statistics(s); VT_ASSERT(c, calls == 1 && st.status == VlSvmStatusConverged && st.iteration == 0 && st.epoch == 0, "evaluation status"); checkFinal(c, P, s, st);
}
int main(int a, char **b) { return vt::vt_main(a, b); }
