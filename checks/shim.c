/* The C library called directly on column-major (transposed) data: the reference
   the toolbox interfaces are compared with.  Results go to vt_out[k][0..vt_n[k]). */
#include <vl/sift.h>
#include <vl/dsift.h>
#include <vl/covdet.h>
#include <vl/mser.h>
#include <vl/hog.h>
#include <vl/lbp.h>
#include <vl/liop.h>
#include <vl/slic.h>
#include <vl/quickshift.h>
#include <vl/mathop.h>
#include <stdlib.h>
#include <string.h>
#define K 12
double *vt_out[K]; long vt_n[K]; static long cap[K];
void vt_reset(void) { for (int k = 0; k < K; ++k) vt_n[k] = 0; }
static void put(int k, double v) {
  if (vt_n[k] == cap[k]) { cap[k] = cap[k] ? 2 * cap[k] : 1024; vt_out[k] = realloc(vt_out[k], cap[k] * sizeof(double)); }
  vt_out[k][vt_n[k]++] = v;
}
static void putf(int k, float const *v, long n) { for (long i = 0; i < n; ++i) put(k, v[i]); }

/* frames: x y sigma angle, C conventions; -1 for parameters left alone; nf < 0: detect */
void vt_sift(float const *im, int w, int h, int O, int S, int omin, double const *prm, double const *frames, int nf, int ori) {
  VlSiftFilt *f = vl_sift_new(w, h, O, S, omin); int i = 0, first = 1;
  vt_reset();
  if (prm[0] >= 0) vl_sift_set_peak_thresh(f, prm[0]);
  if (prm[1] >= 0) vl_sift_set_edge_thresh(f, prm[1]);
  if (prm[2] >= 0) vl_sift_set_norm_thresh(f, prm[2]);
  if (prm[3] >= 0) vl_sift_set_magnif(f, prm[3]);
  if (prm[4] >= 0) vl_sift_set_window_size(f, prm[4]);
  for (;;) {
    VlSiftKeypoint const *keys = 0; int n = nf;
    if (first ? vl_sift_process_first_octave(f, im) : vl_sift_process_next_octave(f)) break;
    first = 0;
    if (nf < 0) { vl_sift_detect(f); keys = vl_sift_get_keypoints(f); n = vl_sift_get_nkeypoints(f); }
    for (i = 0; i < n; ++i) {
      VlSiftKeypoint ik; VlSiftKeypoint const *k; double an[4]; int na = 1, q;
      if (nf >= 0) {
        vl_sift_keypoint_init(f, &ik, frames[4 * i], frames[4 * i + 1], frames[4 * i + 2]);
        if (ik.o != vl_sift_get_octave_index(f)) continue;
        k = &ik; an[0] = frames[4 * i + 3]; if (ori) na = vl_sift_calc_keypoint_orientations(f, an, k);
      } else { k = keys + i; na = vl_sift_calc_keypoint_orientations(f, an, k); }
      for (q = 0; q < na; ++q) {
        float d[128]; vl_sift_calc_keypoint_descriptor(f, d, k, an[q]); putf(1, d, 128);
        put(0, nf >= 0 ? frames[4 * i] : k->x); put(0, nf >= 0 ? frames[4 * i + 1] : k->y); put(0, nf >= 0 ? frames[4 * i + 2] : k->sigma); put(0, an[q]); put(2, i);
      }
    }
  }
  vl_sift_delete(f);
}
void vt_rawdesc(float const *grad, int w, int h, double magnif, double norm, double const *fr, int nf) {
  VlSiftFilt *f = vl_sift_new(w, h, -1, -1, 0); vt_reset();
  if (magnif >= 0) vl_sift_set_magnif(f, magnif);
  if (norm >= 0) vl_sift_set_norm_thresh(f, norm);
  for (int i = 0; i < nf; ++i) { float d[128]; vl_sift_calc_raw_descriptor(f, grad, d, w, h, fr[4 * i], fr[4 * i + 1], fr[4 * i + 2], fr[4 * i + 3]); putf(0, d, 128); }
  vl_sift_delete(f);
}
/* g: numBinX numBinY numBinT binSizeX binSizeY stepX stepY flat, bounds (minX minY maxX maxY) or null */
void vt_dsift(float const *im, int w, int h, int const *g, int const *bounds, double win) {
  VlDsiftDescriptorGeometry ge; VlDsiftFilter *f = vl_dsift_new(w, h); vt_reset();
  ge.numBinX = g[0]; ge.numBinY = g[1]; ge.numBinT = g[2]; ge.binSizeX = g[3]; ge.binSizeY = g[4];
  vl_dsift_set_geometry(f, &ge); vl_dsift_set_steps(f, g[5], g[6]);
  if (bounds) vl_dsift_set_bounds(f, bounds[0], bounds[1], bounds[2], bounds[3]);
  vl_dsift_set_flat_window(f, g[7]); if (win >= 0) vl_dsift_set_window_size(f, win);
  vl_dsift_process(f, im);
  for (int k = 0; k < vl_dsift_get_keypoint_num(f); ++k) { VlDsiftKeypoint const *q = vl_dsift_get_keypoints(f) + k; put(0, q->x); put(0, q->y); put(0, q->norm); }
  putf(1, vl_dsift_get_descriptors(f), (long)vl_dsift_get_keypoint_num(f) * vl_dsift_get_descriptor_size(f));
  vl_dsift_delete(f);
}
static void ss(int k, VlScaleSpace const *s) {
  if (!s) return;
  VlScaleSpaceGeometry g = vl_scalespace_get_geometry(s);
  put(k, g.firstOctave); put(k, g.lastOctave); put(k, g.octaveResolution); put(k, g.octaveFirstSubdivision); put(k, g.octaveLastSubdivision); put(k, g.baseScale);
  for (vl_index o = g.firstOctave; o <= g.lastOctave; ++o) {
    VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(s, o);
    for (vl_index t = g.octaveFirstSubdivision; t <= g.octaveLastSubdivision; ++t)
      putf(k, vl_scalespace_get_level_const(s, o, t), og.width * og.height);
  }
}
/* ip: method, firstOctave, numOctaves, octaveResolution, maxNumOrientations, affine, orient, descriptor (0 none 1 patch 2 sift 3 liop), patchResolution, liop bins, liop neighbours
   dp: baseScale, peak, edge, lap, extent, smoothing, margin, liop radius, liop threshold; negative for defaults */
void vt_covdet(float const *im, int w, int h, int const *ip, double const *dp, double const *fr, int nf) {
  VlCovDet *c = vl_covdet_new((VlCovDetMethod)ip[0]); vl_size i; vl_size n; VlCovDetFeature const *f; vl_size R = ip[8], W = 2 * R + 1; float *patch = malloc(sizeof(float) * W * W), *xy = malloc(2 * sizeof(float) * W * W);
  vt_reset(); vl_covdet_set_transposed(c, VL_TRUE); vl_covdet_set_first_octave(c, ip[1]);
  if (ip[2] > 0) vl_covdet_set_num_octaves(c, ip[2]);
  if (ip[3] > 0) vl_covdet_set_octave_resolution(c, ip[3]);
  if (dp[0] > 0) vl_covdet_set_base_scale(c, dp[0]);
  if (ip[4] > 0) vl_covdet_set_max_num_orientations(c, ip[4]);
  if (dp[1] >= 0) vl_covdet_set_peak_threshold(c, dp[1]);
  if (dp[2] >= 0) vl_covdet_set_edge_threshold(c, dp[2]);
  if (dp[3] >= 0) vl_covdet_set_laplacian_peak_threshold(c, dp[3]);
  vl_covdet_put_image(c, im, w, h);
  if (nf >= 0) for (int k = 0; k < nf; ++k) {
    VlCovDetFeature a; memset(&a, 0, sizeof a); a.frame.x = fr[6 * k]; a.frame.y = fr[6 * k + 1]; a.frame.a11 = fr[6 * k + 2]; a.frame.a21 = fr[6 * k + 3]; a.frame.a12 = fr[6 * k + 4]; a.frame.a22 = fr[6 * k + 5]; a.peakScore = VL_INFINITY_F; a.edgeScore = 1;
    vl_covdet_append_feature(c, &a);
  } else { vl_covdet_detect(c); if (dp[6] > 0) vl_covdet_drop_features_outside(c, dp[6]); }
  if (ip[5]) vl_covdet_extract_affine_shape(c);
  if (ip[6]) vl_covdet_extract_orientations(c);
  n = vl_covdet_get_num_features(c); f = vl_covdet_get_features(c);
  for (i = 0; i < n; ++i) {
    VlFrameOrientedEllipse e = f[i].frame; put(0, e.x); put(0, e.y); put(0, e.a11); put(0, e.a21); put(0, e.a12); put(0, e.a22);
    put(2, f[i].peakScore); put(3, f[i].edgeScore); put(6, f[i].orientationScore); put(7, f[i].laplacianScaleScore);
  }
  if (ip[7]) {
    VlSiftFilt *s = vl_sift_new(16, 16, 1, 3, 0); VlLiopDesc *l = ip[7] == 3 ? vl_liopdesc_new(ip[10], ip[9], dp[7], W) : 0;
    vl_sift_set_magnif(s, 3.0);
    if (l && !vl_is_nan_d(dp[8])) vl_liopdesc_set_intensity_threshold(l, dp[8]);
    for (i = 0; i < n; ++i) {
      if (vl_covdet_extract_patch_for_frame(c, patch, R, dp[4], dp[5], f[i].frame) != VL_ERR_OK) { put(8, i); continue; }
      if (ip[7] == 1) putf(1, patch, W * W);
      if (ip[7] == 2) {
        float d[128]; vl_imgradient_polar_f(xy, xy + 1, 2, 2 * W, patch, W, W, W);
        vl_sift_calc_raw_descriptor(s, xy, d, W, W, (W - 1) / 2.0, (W - 1) / 2.0, dp[4] / (3.0 * (4 + 1) / 2) / (dp[4] / R), VL_PI / 2); putf(1, d, 128);
      }
      if (l) { vl_size dim = vl_liopdesc_get_dimension(l); float *d = calloc(dim, sizeof(float)); vl_liopdesc_process(l, d, patch); putf(1, d, dim); free(d); }
    }
    vl_sift_delete(s); if (l) vl_liopdesc_delete(l);
  }
  ss(4, vl_covdet_get_gss(c)); ss(5, vl_covdet_get_css(c));
  free(patch); free(xy); vl_covdet_delete(c);
}
/* prm: delta maxarea minarea maxvar mindiv, negative: default */
void vt_mser(unsigned char const *im, int nd, int const *dims, double const *prm) {
  VlMserFilt *f = vl_mser_new(nd, dims); vt_reset();
  if (prm[0] >= 0) vl_mser_set_delta(f, prm[0]);
  if (prm[1] >= 0) vl_mser_set_max_area(f, prm[1]);
  if (prm[2] >= 0) vl_mser_set_min_area(f, prm[2]);
  if (prm[3] >= 0) vl_mser_set_max_variation(f, prm[3]);
  if (prm[4] >= 0) vl_mser_set_min_diversity(f, prm[4]);
  vl_mser_process(f, im);
  for (vl_uint i = 0; i < vl_mser_get_regions_num(f); ++i) put(0, vl_mser_get_regions(f)[i]);
  vl_mser_ell_fit(f); put(2, vl_mser_get_ell_dof(f)); putf(1, vl_mser_get_ell(f), (long)vl_mser_get_ell_num(f) * vl_mser_get_ell_dof(f));
  vl_mser_delete(f);
}
/* mode 0 image, 1 directed polar, 2 undirected polar, 3 permutation, 4 render */
void vt_hog(float const *im, int w, int h, int ch, int variant, int no, int bil, int mode, int cell) {
  VlHog *g = vl_hog_new(variant ? VlHogVariantDalalTriggs : VlHogVariantUoctti, no, VL_TRUE); vt_reset(); vl_size dim = vl_hog_get_dimension(g);
  if (mode < 3) {
    vl_hog_set_use_bilinear_orientation_assignments(g, bil);
    if (mode == 0) vl_hog_put_image(g, im, w, h, ch, cell); else vl_hog_put_polar_field(g, im, im + w * h, mode == 1, w, h, cell);
    vl_size a = vl_hog_get_width(g), b = vl_hog_get_height(g); float *d = calloc(a * b * dim + 1, sizeof(float)); vl_hog_extract(g, d);
    put(1, a); put(1, b); put(1, dim); putf(0, d, a * b * dim); free(d);
  } else if (mode == 3) for (vl_size k = 0; k < dim; ++k) put(0, vl_hog_get_permutation(g)[k]);
  else if ((vl_size)ch == dim) { vl_size s = vl_hog_get_glyph_size(g); float *d = calloc(s * s * w * h + 1, sizeof(float)); vl_hog_render(g, d, im, w, h); put(1, s); putf(0, d, s * s * w * h); free(d); }
  else put(1, -1);
  vl_hog_delete(g);
}
void vt_lbp(float const *im, int w, int h, int cell) {
  VlLbp *l = vl_lbp_new(VlLbpUniform, VL_TRUE); vt_reset(); vl_size n = (w / cell) * (h / cell) * vl_lbp_get_dimension(l); float *d = calloc(n + 1, sizeof(float));
  vl_lbp_process(l, d, (float *)im, w, h, cell); put(1, w / cell); put(1, h / cell); put(1, vl_lbp_get_dimension(l)); putf(0, d, n); free(d); vl_lbp_delete(l);
}
void vt_liop(float const *im, int side, int np, int nn, int nb, double radius, double thr) {
  VlLiopDesc *l = vl_liopdesc_new(nn, nb, radius, side); vt_reset(); if (!vl_is_nan_d(thr)) vl_liopdesc_set_intensity_threshold(l, thr);
  vl_size dim = vl_liopdesc_get_dimension(l); float *d = calloc(dim, sizeof(float)); put(1, dim);
  for (int i = 0; i < np; ++i) { vl_liopdesc_process(l, d, im + (long)side * side * i); putf(0, d, dim); }
  free(d); vl_liopdesc_delete(l);
}
void vt_slic(float const *im, int w, int h, int ch, int rs, double reg, int minsz) {
  vl_uint32 *s = calloc((long)w * h + 1, 4); vt_reset(); vl_slic_segment(s, im, w, h, ch, rs, reg, minsz); for (long i = 0; i < (long)w * h; ++i) put(0, s[i]); free(s);
}
void vt_qs(double const *im, int w, int h, int ch, double sigma, double tau, int medoid) {
  VlQS *q = vl_quickshift_new(im, w, h, ch); vt_reset(); vl_quickshift_set_kernel_size(q, sigma); vl_quickshift_set_max_dist(q, tau); vl_quickshift_set_medoid(q, medoid); vl_quickshift_process(q);
  for (long i = 0; i < (long)w * h; ++i) { put(0, vl_quickshift_get_parents(q)[i]); put(1, vl_quickshift_get_dists(q)[i]); put(2, vl_quickshift_get_density(q)[i]); }
  vl_quickshift_delete(q);
}
