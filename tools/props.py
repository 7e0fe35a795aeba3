#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py rewrites it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
I = ["inputs"]; IC = ["inputs", "configurations"]; H = ["histories"]; IH = ["inputs", "histories"]

# ---------------------------------------------------------------- numerical core
p("N01", "Vector distances and kernels equal their mathematical definitions",
  """Every vector comparison the library offers (L1, squared L2, chi2, Hellinger, Jensen-Shannon, Mahalanobis
  distances; L1, L2, chi2, Hellinger, JS kernels), in single and double precision, returns the value of its
  mathematical formula up to floating-point rounding, for every dimension, every pointer alignment and whether
  vector (SIMD) instructions are enabled or not. The all-pairs evaluation returns exactly the matrix of the
  individual comparisons, with one data set against itself or against another. Inputs are never modified or read
  out of bounds.""",
  IC, "all dimensions >= 0, float and double, all 16/32-byte alignments, all comparison types, SIMD on and off, non-negative and signed data",
  "The C test program prints values and checks nothing; the toolbox test compares a handful of fixed sizes on one SIMD setting. Tail handling and alignment paths depend on dimension mod 4/8 and pointer bits.",
  ["vl/mathop.c", "vl/mathop.h", "vl/mathop_sse2.c", "vl/mathop_avx.c"],
  [("scalar templates and SIMD dispatch", "vl/mathop.c:vl_get_vector_comparison_function_f/d"), ("SSE2/AVX kernels with alignment and tail loops", "vl/mathop_sse2.c, vl/mathop_avx.c")])
p("N02", "Scalar math helpers meet their stated accuracy on their whole domain",
  """Floor, ceiling, rounding, absolute value and angle reduction return the correct result for every
  representable argument in range; integer square roots return the exact floor of the square root for every
  8/16/32/64-bit unsigned integer; fast reciprocal square root, square root and arc tangent approximations
  stay within their stated relative/absolute error everywhere on their domain.""",
  I, "every argument in the documented domain (boundary values, perfect squares and neighbours, all quadrants, denormals excluded for the approximations)",
  "The test programs print a few values and timings and check nothing.",
  ["vl/mathop.h"], [("inline scalar functions", "vl/mathop.h")])
p("N03", "Small dense linear algebra returns valid factorisations and solutions",
  """The 2x2 singular value decomposition returns orthogonal factors and sorted non-negative singular values
  whose product is the input matrix; the upper-triangular variant returns rotations that diagonalise its input.
  Solving 2x2, 3x3 and general linear systems returns a solution with a small residual when the matrix is well
  conditioned, and reports failure for a singular matrix.""",
  I, "all 2x2 matrices (random, rank deficient, diagonal, tiny and huge entries) and all n x m augmented systems",
  "The test programs print results for a few matrices; no residual is asserted.",
  ["vl/mathop.c"], [("vl_svd2, vl_lapack_dlasv2, vl_gaussian_elimination, vl_solve_linear_system_2/3", "vl/mathop.c")])
p("N04", "Rodrigues formula and its inverse are a consistent pair with derivatives",
  """The rotation matrix computed from a rotation vector is the exact exponential of its skew-symmetric matrix
  (orthogonal, determinant one) and the inverse map recovers a rotation vector of the same rotation with norm at
  most pi. The returned derivatives agree with numerical differentiation away from singular points, and results
  do not depend on whether derivatives are requested.""",
  I, "all rotation vectors, including zero, tiny, near-pi and larger-than-pi norms",
  "No test touches these functions.",
  ["vl/rodrigues.c", "toolbox/geometry/vl_rodr.c", "toolbox/geometry/vl_irodr.c"], [("vl_rodrigues, vl_irodrigues", "vl/rodrigues.c")])
p("N05", "The random generator is a reproducible, independent Mersenne Twister",
  """Each generator, seeded by a number, by an array, or left at its initial state, produces exactly the MT19937
  reference stream, and every derived sample (63/64/31-bit integers, the [0,1], [0,1), (0,1) and 53-bit reals,
  bounded indexes) is the documented function of that stream. Distinct generators never influence each other, in any
  interleaving of calls. Index permutation and shuffling always yield a permutation and reach every
  permutation with equal probability.""",
  IH, "all seeds, key arrays and interleavings of sampling calls over several generators",
  "test_rand prints numbers; the toolbox twister tests cannot run against Octave's generator.",
  ["vl/random.c", "vl/random.h", "vl/shuffle-def.h"], [("MT19937 state and tempering", "vl/random.c")])
p("N06", "Sort, heap and shuffle templates preserve content and order correctly",
  """Sorting returns a permutation of its input in non-decreasing comparator order for every length; a heap returns,
  under any history of push, pop and update operations, an element that is minimal among those contained, and
  loses or duplicates none; both work through user-supplied comparison and swap operations only.""",
  IH, "all arrays (duplicates, sorted, reversed, length 1) and all push/pop/update histories",
  "The test programs run one random array and print it.",
  ["vl/qsort-def.h", "vl/heap-def.h", "vl/shuffle-def.h"], [("templates", "vl/qsort-def.h, vl/heap-def.h")])
p("N07", "Image convolution equals the direct formula for every option",
  """Column convolution and triangular-kernel convolution produce, for every image size and stride, filter support
  (symmetric or not, longer than the image), subsampling step, padding mode (zero or continuity) and transposition
  option, the value of the direct discrete convolution up to rounding, in both precisions and with SIMD enabled or
  disabled. Gaussian smoothing equals separable convolution with the normalised sampled Gaussian. No pixel outside
  the destination is written nor outside the source read.""",
  IC, "all image sizes, strides, filter ranges, steps, padding modes, transposition, alignments, SIMD on/off",
  "test_imopv prints timing on one image; vl_test_imsmooth checks a few kernels on one image.",
  ["vl/imopv.c", "vl/imopv.h", "vl/imopv_sse2.c", "toolbox/imop/vl_imsmooth.c"],
  [("generic convolution template", "vl/imopv.c:vl_imconvcol_v*"), ("SSE2 path chosen by alignment", "vl/imopv_sse2.c"), ("triangular kernel", "vl/imopv.c:vl_imconvcoltri_*")])
p("N08", "Integral images, gradients and distance transforms equal their definitions",
  """Integral images hold the exact sum of all pixels above and to the left for every supported element type; the
  image gradient holds central differences (one-sided at borders) and its polar form the matching modulus and
  an angle in [0,2pi]. The generalised distance transform returns at each pixel the minimum over the line of
  value plus quadratic penalty, and its index output names a pixel attaining it, with several passes chaining to the
  two-dimensional minimum.""",
  I, "all image sizes including 1-pixel rows/columns, strides, values (integer ties, infinities for the distance transform), penalty coefficients and offsets",
  "Integral image tests do not run (helpers missing); distance transform tests use a few fixed images.",
  ["vl/imopv.c", "toolbox/imop/vl_imintegral.c", "toolbox/imop/vl_imdisttf.c"],
  [("vl_imintegral_*, vl_imgradient_*, vl_imgradient_polar_*, vl_image_distance_transform_*", "vl/imopv.c")])

# ---------------------------------------------------------------- support
p("S01", "String helpers never overrun and report the full length",
  """Every string-producing helper (copy, bounded copy, basename extraction, wildcard replacement) writes at most the
  given number of bytes, always terminates the result when the buffer is non-empty, stores the longest fitting prefix
  of the complete result and returns the length of the complete result. Parsing of a protocol prefix, reverse search,
  case-insensitive comparison and enumeration look-up return exactly what their definition says for every string.""",
  I, "all strings over adversarial alphabets (separators, dots, wildcards, escapes, high bytes), all buffer sizes including 0 and NULL buffers",
  "test_stringop checks about twenty literal cases.",
  ["vl/stringop.c", "vl/stringop.h"], [("bounded copy loops", "vl/stringop.c")])
p("S02", "Command-line option parsing follows getopt_long",
  """Parsing any argument vector against any option table yields the sequence of returned options, arguments and
  error indications that the getopt_long convention prescribes (clusters of short options, attached and detached
  arguments, long options matched by their exact name with or without a value, unknown options, missing arguments, a lone
  dash as an operand, the double-dash terminator), and leaves the argument vector permuted with the options first and all
  operands behind them in their original order. It never reads or writes outside the argument vector and the option
  string, and can be restarted for another vector.""",
  IH, "all argument vectors and option tables over a small alphabet; consecutive parses with reset",
  "test_getopt_long runs a few fixed command lines and checks nothing.",
  ["vl/getopt_long.c", "vl/getopt_long.h"], [("getopt_long", "vl/getopt_long.c")])
p("S03", "PGM images round-trip and malformed files are rejected cleanly",
  """Writing any 8- or 16-bit gray image and reading it back gives the same size, maximum value and pixels, in binary
  and (for reading) plain formats, with comments and arbitrary white space in the header. Any other byte sequence
  is either read as a well-formed image with consistent size or rejected with an error code and message; it never
  crashes, reads uninitialised data or leaks.""",
  I, "all images and all byte strings (mutated headers, truncations, huge dimensions)",
  "The tests read one well-formed file through the toolbox.",
  ["vl/pgm.c", "vl/pgm.h"], [("header tokeniser and data reader", "vl/pgm.c")])
p("S04", "Library state is per thread where promised and never corrupted by concurrency",
  """Each thread sees its own last error, error message and default random generator: whatever other threads do, a
  thread reads back exactly the errors it set (messages bounded and terminated) and the random stream it seeded.
  Independent library objects used in different threads at the same time produce exactly the results they produce
  when used one after another, and thread termination releases the thread's state.""",
  ["schedules", "histories"], "all interleavings of error, random and object operations over several threads",
  "test_threads prints from three threads and asserts nothing.",
  ["vl/generic.c", "vl/host.c"], [("thread-specific state via pthread keys", "vl/generic.c:vl_get_thread_specific_state")])
p("S05", "Every object releases all memory through the configured allocator",
  """Whatever sequence of valid operations is applied to library objects (creation, configuration, processing of
  several inputs of different sizes, resets, copies, deletion), all memory is obtained from the configured allocation functions
  and, after deletion, every block has been returned to them exactly once. Copies are independent of their originals,
  and re-using an object for another input gives the same result as a fresh object.""",
  H, "all operation histories over k-means, GMM, kd-forest, SIFT, DSIFT, HOG, LIOP, LBP, MSER, covariant detector, scale space, SVM, SLIC, quick shift, integer k-means, AIB, kernel map objects",
  "Tests create one object, use it once and exit; leaks and stale state are invisible to them.",
  ["vl/generic.c", "vl/kmeans.c", "vl/gmm.c", "vl/kdtree.c", "vl/scalespace.c", "vl/covdet.c", "vl/sift.c", "vl/dsift.c", "vl/hog.c"],
  [("allocator indirection", "vl/generic.c:vl_set_alloc_func"), ("object destructors and resets", "vl/*.c:*_delete, *_reset")])

# ---------------------------------------------------------------- clustering and indexing
p("C01", "Exact kd-tree queries return the true nearest neighbours",
  """With an unlimited number of comparisons, a kd-forest query returns, for every data set, query, distance, number of
  trees, threshold rule and number of neighbours, the same sorted list of distances as an exhaustive search, and the returned indexes
  are distinct and attain those distances. Missing neighbours (more requested than available) are reported as
  invalid.""",
  I, "all data sets (duplicates, collinear, constant dimensions), queries, K, tree counts, L1/L2, float/double, mean/median splits",
  "The toolbox tests use one random data set and default options.",
  ["vl/kdtree.c", "vl/kdtree.h", "toolbox/misc/vl_kdtreebuild.c", "toolbox/misc/vl_kdtreequery.c"],
  [("branch and bound with per-dimension lower bounds", "vl/kdtree.c:vl_kdforest_query_recursively"), ("median/mean split", "vl/kdtree.c:vl_kdtree_build_recursively")])
p("C02", "Approximate kd-tree queries respect their budget and report true distances",
  """With a limited number of comparisons, a query evaluates no more than the allowed number of leaf comparisons (up to one
  leaf's worth), every returned neighbour is a distinct data point with its true distance, the list is sorted, and raising the budget never
  gives a worse list; with a budget at least the data size the result is exact. Batch queries, searcher objects
  and repeated queries on one forest give the results of independent single queries.""",
  IH, "all data sets, forests, budgets and sequences of queries through several searchers",
  "The tests check a recall percentage on one random data set.",
  ["vl/kdtree.c"], [("priority queue over all trees, searcher stamps", "vl/kdtree.c:vl_kdforestsearcher_query")])
p("C03", "k-means decreases its energy and returns consistent assignments",
  """For every data set, distance (L1, L2), algorithm (Lloyd, Elkan, approximate), initialisation and precision, the returned
  energy equals the sum of distances of points to their assigned centres, each reported assignment is a nearest final centre for
  exact algorithms, further refinement never increases the energy, and Lloyd and Elkan started from the same centres agree.
  At convergence each non-empty cluster's centre is the mean (L2) or coordinate-wise median (L1) of its points; the best
  of several repetitions is returned.""",
  I, "all data sets incl. duplicates, K up to the number of points, dimensions, distances, algorithms, initialisations, repetitions",
  "The tests compare three algorithms on one data set in the toolbox.",
  ["vl/kmeans.c", "vl/kmeans.h", "toolbox/kmeans/vl_kmeans.c"],
  [("Lloyd/Elkan/ANN refinement", "vl/kmeans.c:_vl_kmeans_refine_centers_*"), ("k-means++ and random initialisation", "vl/kmeans.c")])
p("C04", "Integer and hierarchical k-means assign points to nearest centres",
  """Integer k-means, with either algorithm and any initialisation, projects every 8-bit vector on a centre at minimum
  squared distance, batch and single projections agree, and trained centres are the integer means of their points or fixed points
  of the iteration. Hierarchical k-means yields for every point the path obtained by projecting it at each tree
  level, with tree arity and depth as requested.""",
  I, "all 8-bit data sets, K, algorithms, initialisations, tree depth and branching",
  "The tests look at one data set and check shapes; hierarchical tests fail on this platform.",
  ["vl/ikmeans.c", "vl/ikmeans_lloyd.tc", "vl/ikmeans_elkan.tc", "vl/ikmeans_init.tc", "vl/hikmeans.c", "toolbox/kmeans"],
  [("Lloyd and Elkan integer iterations", "vl/ikmeans_*.tc"), ("recursive tree build and push", "vl/hikmeans.c")])
p("C05", "GMM posteriors, likelihood and EM updates follow the mixture model",
  """For every data set and parameters, the posteriors computed for each point are the normalised weighted Gaussian
  densities and the reported log-likelihood is that of the returned model, in both precisions and SIMD modes. One EM iteration gives
  the maximum-likelihood update of priors, means and covariances, covariances never fall below the configured
  lower bounds, priors stay non-negative and sum to one, and the likelihood does not decrease from iteration to iteration
  while bounds and cluster restarts are inactive.""",
  I, "all data sets, dimensions, numbers of modes, initialisations, covariance bounds, float/double, SIMD on/off",
  "The only toolbox test compares two thread counts; test_gmm prints.",
  ["vl/gmm.c", "vl/gmm.h", "vl/mathop_sse2.c", "vl/mathop_avx.c", "toolbox/gmm/vl_gmm.c"],
  [("posteriors with log-sum-exp", "vl/gmm.c:vl_get_gmm_data_posteriors"), ("EM maximisation and bounds", "vl/gmm.c")])
p("C06", "Fisher vectors equal the normalised gradient of the mixture likelihood",
  """The Fisher encoding of any set of vectors under any diagonal mixture equals the closed-form average of
  normalised first- and second-order differences weighted by posteriors; the square-root, normalised, improved and fast
  options are exactly the signed square root, unit L2 normalisation, both, and hard assignment. An empty set and zero vectors
  never produce NaN, and the order of the vectors does not matter.""",
  IC, "all data sets, mixtures, dimensions, float/double, all flag combinations",
  "Toolbox tests compare one random mixture per option.",
  ["vl/fisher.c", "toolbox/fisher/vl_fisher.c"], [("vl_fisher_encode", "vl/fisher.c")])
p("C07", "VLAD encodings equal the sum of assigned residuals with the chosen normalisation",
  """The VLAD encoding of any set of vectors, centres and (soft or hard) assignments equals, per centre, the
  assignment-weighted sum of differences to the centre, and each option (component normalisation by mass, signed square
  root, per-component and global L2 normalisation, and their combinations) applies exactly its definition. Zero blocks stay zero and no NaN appears.""",
  IC, "all data sets, centres, assignments incl. empty clusters, float/double, all flag combinations",
  "Toolbox tests use one random example per option.",
  ["vl/vlad.c", "toolbox/vlad/vl_vlad.c"], [("vl_vlad_encode", "vl/vlad.c")])
p("C08", "AIB merges the pair that loses least information at every step",
  """Agglomerative information bottleneck returns for every joint histogram a binary merge tree that covers all non-null
  rows, in which each merge joins a pair whose information loss is minimal among the remaining clusters, and the reported cost
  sequence is the mutual information left after each merge, non-increasing. Cutting the tree at any size and pushing
  or histogramming labels through the cut gives the corresponding partition.""",
  I, "all non-negative joint histograms incl. null rows, ties, single label",
  "The toolbox tests check a null row and one clustering.",
  ["vl/aib.c", "toolbox/aib"], [("nearest-neighbour bookkeeping", "vl/aib.c:vl_aib_process"), ("cut and push", "toolbox/aib/*.m, *.c")])

# ---------------------------------------------------------------- features
p("F01", "Scale spaces have the documented geometry and smoothing",
  """A scale space has for every image size and geometry the documented octaves, sizes, steps and per-level smoothing; every
  level equals the input image smoothed with a Gaussian of the level's nominal scale (minus the nominal smoothing) and resampled at the
  octave step, up to discretisation. Unsupported geometries are reported, copies are deep or shallow as named.""",
  IC, "all image sizes, first/last octaves incl. negative, resolutions, sub-level ranges, base scales",
  "No unit test builds a scale space on its own; SIFT tests use one image.",
  ["vl/scalespace.c", "vl/scalespace.h"], [("octave initialisation and incremental smoothing", "vl/scalespace.c")])
p("F02", "SIFT detection returns exactly the refined extrema of the DoG scale space",
  """For every image and parameters, the keypoints detected per octave are exactly the strict local extrema of the
  difference-of-Gaussians stack that pass the peak and edge thresholds after sub-pixel refinement, with refined position and scale consistent with the
  quadratic fit, inside the image. The scale-space levels equal Gaussian smoothing at the
  documented scales; octaves end as documented and raising thresholds only removes keypoints.""",
  IC, "all images, octave/level/first-octave settings, peak, edge and norm thresholds",
  "The UBC comparison checks one image against stored results with wide tolerance.",
  ["vl/sift.c", "vl/sift.h"], [("DoG extrema and refinement", "vl/sift.c:vl_sift_detect"), ("incremental octave smoothing", "vl/sift.c:vl_sift_process_*_octave")])
p("F03", "SIFT orientations and descriptors equal the documented histogram",
  """For every keypoint at most four orientations are returned, each at a smoothed-histogram peak of at least 80% of the maximum.
  Descriptors (from a keypoint or raw gradients) equal the trilinearly interpolated, Gaussian-weighted
  gradient histogram, L2-normalised, clamped at 0.2 and renormalised, and are therefore non-negative with
  unit norm or zero. Adding a constant to the image or scaling its contrast by a positive factor leaves descriptors and orientations unchanged.""",
  I, "all images, keypoint positions incl. near borders, scales, angles, magnification, window size and norm threshold",
  "One image with recorded descriptors is compared within a tolerance.",
  ["vl/sift.c"], [("vl_sift_calc_keypoint_orientations, vl_sift_calc_keypoint_descriptor, vl_sift_calc_raw_descriptor", "vl/sift.c")])
p("F04", "Dense SIFT frames cover the requested grid with correct descriptors",
  """Dense SIFT computes one descriptor at each grid point implied by image size, bounds, step and descriptor geometry, in the
  documented order, with the frame centre and norm reported. Each descriptor equals, up to rounding, the direct
  spatially windowed gradient histogram, normalised and clamped as for SIFT; the flat window mode approximates the Gaussian mode with
  the documented per-bin reweighting, and processing is independent of previously processed images.""",
  IC, "all image sizes, steps, bounds, bin counts and sizes, window size, flat or Gaussian window",
  "Tests compare fast and slow mode on one image.",
  ["vl/dsift.c", "vl/dsift.h", "toolbox/sift/vl_dsift.c"], [("triangular/Gaussian pooling", "vl/dsift.c:_vl_dsift_with_*_window")])
p("F05", "Covariant detection returns exactly the qualifying extrema of its measure",
  """For each cornerness measure (DoG, Hessian, Harris and their Laplace and multiscale variants) the cornerness scale space is that measure of the
  Gaussian scale space of the image, and the detected features are its local extrema (over space and scale for DoG and Hessian, over space at every level otherwise)
  whose refined value exceeds the peak threshold and whose curvature ratio is below the edge threshold, mapped to the image frame; the Laplace variants
  keep a copy of each at every scale where the Laplacian has an extremum above its threshold. Non-extrema suppression
  removes the features overlapping a stronger one of similar scale and no others. The local extrema finder returns precisely the strict extrema above threshold
  in 2D and 3D, and refinement solves the quadratic fit; dropping features outside removes exactly those whose support leaves the image.
  A detector used again after other images, settings or a reset gives the same result as a new one.""",
  IC, "all images down to a few pixels, methods, thresholds, octave settings, boundary margins, histories of settings, images and detections",
  "No unit test in the suite exercises the covariant detector.",
  ["vl/covdet.c", "vl/covdet.h"], [("vl_find_local_extrema_2/3, vl_refine_local_extreum_2/3", "vl/covdet.c"), ("vl_covdet_put_image, vl_covdet_detect, vl_covdet_reset, vl_covdet_extract_laplacian_scales, vl_covdet_drop_features_outside", "vl/covdet.c")])
p("F06", "Covariant patches, affine adaptation and orientations are consistent",
  """The patch extracted for a frame is the image warped by that frame, taken from the coarsest scale space level whose smoothing does not exceed
  the requested one, with boundary values repeated outside of the image (or refused when padding is off). Orientations are the
  peaks of the smoothed gradient orientation histogram of the patch, measured in the frame: sorted by score, limited to the best ones up to the maximum number, at least 80% of the best;
  a linear ramp has the one orientation of its gradient. Affine adaptation preserves the feature centre and the smaller axis, bounds the anisotropy, yields an upright
  shape and makes the gradient statistics isotropic, so that an elongated blob gets an ellipse elongated alike. Processing all features agrees with the functions for one frame.""",
  I, "all frames inside, across and outside of the borders, reflected and elongated, images incl. degenerate stripes, patch resolutions, extents, smoothing levels",
  "No unit test in the suite exercises these functions.",
  ["vl/covdet.c", "toolbox/sift/vl_covdet.c"], [("vl_covdet_extract_patch_helper, vl_covdet_extract_affine_shape_for_frame, vl_covdet_extract_orientations_for_frame", "vl/covdet.c")])
p("F07", "LIOP descriptors follow the intensity-order definition",
  """The LIOP descriptor of any patch equals the histogram of order permutations of the sampled neighbours, weighted by
  the number of sufficiently different pairs and pooled over intensity-rank bins, normalised to unit norm (or
  zero). It is unchanged by positive affine intensity changes when the threshold is relative, and has the documented dimension and sample layout.""",
  IC, "all odd patch sizes, neighbours, bins, radii, thresholds and patch contents",
  "Toolbox tests check a blob, neighbours and equality across calls on a few patches.",
  ["vl/liop.c", "vl/liop.h"], [("vl_liopdesc_process", "vl/liop.c")])
p("F08", "HOG features follow their definition and flip by permutation",
  """For every image (or polar gradient field), cell size, orientation count, variant and assignment mode, the extracted
  HOG array has the documented size and equals the documented normalised, clamped histograms up to rounding. Mirroring the image left-right permutes
  the cells and orientations exactly as the permutation the library reports; features are bounded by the clamp and rendering is the
  positive combination of glyphs.""",
  IC, "all image sizes, channels, cell sizes, orientation counts, both variants, bilinear or hard assignment, transposition",
  "Tests use one image and compare variants between themselves.",
  ["vl/hog.c", "vl/hog.h", "toolbox/misc/vl_hog.c"], [("vl_hog_put_image, vl_hog_put_polar_field, vl_hog_extract", "vl/hog.c")])
p("F09", "LBP features are normalised histograms of the documented patterns",
  """For every image and cell size the LBP output has the documented size and each cell equals the bilinearly
  weighted, L2-normalised-square-root histogram of the quantised local patterns around its pixels; the uniform quantisation maps
  the 256 patterns to 58 bins as documented and the transposed mode equals processing the transposed image.""",
  IC, "all image sizes, cell sizes, transposition",
  "Tests check left-right flipping on one image and the table size.",
  ["vl/lbp.c"], [("vl_lbp_process and mapping table", "vl/lbp.c")])
p("F10", "MSER returns exactly the maximally stable extremal regions",
  """For every 8-bit image (of any dimensionality) and parameters the returned seeds identify exactly the extremal regions that are
  maximally stable under the documented variation, area and diversity rules, as found by exhaustive
  component-tree construction. Fitted ellipsoids are the exact mean and covariance of the region pixels, and re-processing with the same
  filter object gives the same regions.""",
  IC, "all images of 1-3 dimensions with ties and plateaux, delta, area bounds, variation, diversity",
  "One image is processed in the toolbox test.",
  ["vl/mser.c", "vl/mser.h", "toolbox/mser"], [("vl_mser_process, vl_mser_ell_fit", "vl/mser.c")])

# ---------------------------------------------------------------- segmentation
p("G01", "Quick shift links every pixel to its nearest denser neighbour",
  """For every image and parameters, quick shift reports the Parzen density of each pixel and links it to the nearest pixel of
  strictly higher density in joint space-colour distance within the search window and maximum distance, or to itself as a root
  with infinite distance. The links form a forest, and the medoid variant follows its own documented minimisation.""",
  IC, "all image sizes, channels, kernel sizes, ratios, maximum distances, medoid on/off",
  "No unit test touches quick shift.",
  ["vl/quickshift.c", "vl/quickshift.h", "toolbox/quickshift"], [("vl_quickshift_process", "vl/quickshift.c")])
p("G02", "SLIC yields a complete labelling into connected regions of minimum size",
  """For every image, region size, regulariser and minimum size, SLIC labels every pixel with a label below the number of grid
  cells, each returned region after clean-up is connected through its merges and no connected component is smaller than the requested
  minimum unless it cannot be merged; with cleaning disabled each pixel carries the nearest admissible centre. Output is deterministic
  and independent of memory contents.""",
  IC, "all image sizes, channels, region sizes (dividing or not), regularisers, minimum sizes",
  "One image is compared with a MATLAB reimplementation on a single setting.",
  ["vl/slic.c", "toolbox/slic/vl_slic.c"], [("vl_slic_segment", "vl/slic.c")])

# ---------------------------------------------------------------- learning
p("L01", "SVM training converges to the regularised risk minimiser",
  """For every weighted data set, loss, regularisation and bias setting, dual coordinate ascent stops with a non-negative duality
  gap below the requested tolerance (or the iteration limit) and the returned model's objective is within that gap of the true minimum;
  stochastic gradient descent approaches the same minimum. Reported objective, regulariser, loss, scores and
  iteration statistics are those of the returned model, and warm starting SGD from a model and iteration number continues from it.""",
  IC, "all data sets, labels, weights, lambdas, losses (hinge, squared hinge, logistic, l1, l2), solvers, bias multipliers",
  "Tests compare against stored MATLAB results which do not reproduce here, on one data set.",
  ["vl/svm.c", "vl/svm.h", "toolbox/misc/vl_svmtrain.c"], [("SDCA and SGD loops, objective update", "vl/svm.c")])
p("L02", "SVM losses, conjugates and updates are mutually consistent",
  """Each loss returns its formula, its derivative is a subgradient everywhere, its conjugate satisfies the Fenchel-Young inequality with equality
  at the derivative, and the coordinate update keeps the dual variable feasible and maximises the dual objective (for the logistic loss, which is
  updated numerically, to within 0.01).""",
  I, "all labels, predictions, dual variables, curvatures",
  "Not exercised directly by any test.",
  ["vl/svm.c"], [("vl_svm_*_loss, _loss_derivative, _conjugate_loss, _dca_update", "vl/svm.c")])
p("L03", "Training data adapters compute inner products with the mapped data",
  """A data set object returns for every element the inner product with, and the accumulation of a multiple of, the element itself or its
  homogeneous kernel expansion, in both precisions, agreeing with explicit computation; dimensions and counts are as documented.""",
  I, "all data, element indexes, multipliers, with and without kernel map",
  "Only an end-to-end test with a kernel map exists.",
  ["vl/svmdataset.c"], [("inner product and accumulate functions", "vl/svmdataset.c")])
p("L04", "Homogeneous kernel maps reproduce the kernel",
  """The feature map of order n has dimension 2n+1 and its inner products approximate the additive kernel (intersection, chi2, Jensen-Shannon)
  equal to the sampled, windowed spectrum formula for every argument in the tabulated range [2^-20, 2^8), period, window and
  homogeneity degree (smaller arguments give a null feature); it is odd in the sign of the argument, zero at zero, and the same in single and double precision and for any output stride.""",
  IC, "all arguments over many orders of magnitude, orders, gammas, periods, windows, kernels, strides",
  "Toolbox tests check a fixed grid of values within a tolerance.",
  ["vl/homkermap.c", "toolbox/misc/vl_homkermap.c"], [("tabulated log-spectrum and interpolation", "vl/homkermap.c")])

# ---------------------------------------------------------------- command line
p("T01", "The sift command writes complete, consistent and readable results",
  """For every image and option combination, the sift program writes frame and descriptor files (text or binary) with one record per keypoint
  whose values are those of the library for the same settings, and reading its own frames back reproduces the same
  descriptors. Malformed input images, frame files or options are reported with a non-zero exit status and no crash.""",
  IC, "all images, octave/level/threshold options, text/binary outputs, frame inputs, malformed inputs",
  "No test runs the program.",
  ["src/sift.c", "src/generic-driver.h", "vl/pgm.c"], [("driver and file-meta handling", "src/sift.c, src/generic-driver.h")])
p("T02", "The mser command writes the regions the library finds",
  """For every image and option combination, the mser program writes seed and ellipsoid files that list the bright and/or dark regions the library finds
  for the same settings; malformed input is reported with a non-zero exit status and no crash.""",
  IC, "all images, options, malformed inputs",
  "No test runs the program.",
  ["src/mser.c", "src/generic-driver.h"], [("driver", "src/mser.c")])

# ---------------------------------------------------------------- toolbox
p("X01", "Bin search, bin sum, weighted and integral histograms count exactly",
  """Bin search maps each value to the bin whose edges enclose it, with infinities handled as documented; bin sum adds each
  value exactly to its indexed accumulator (any class, dimension and scalar broadcast) and rejects out-of-range indexes. Weighted
  histograms match a direct count skipping NaN, integral histograms and their box samples give exact label masses of any box.""",
  I, "all arrays, classes, dimensions, edges, indexes incl. zeros, NaN and infinities",
  "A few literal examples are tested.",
  ["toolbox/misc/vl_binsearch.c", "toolbox/misc/vl_binsum.c", "toolbox/misc/vl_binsum.def", "toolbox/misc/vl_whistc.m", "toolbox/misc/vl_inthist.c", "toolbox/misc/vl_sampleinthist.c", "toolbox/misc/vl_histmarg.m"],
  [("MEX implementations", "toolbox/misc")])
p("X02", "Hashed counting is an exact multiset of labels",
  """After any sequence of accumulations into a hash table of any initial size, looking up a label returns exactly the number of
  times it was accumulated, unseen labels are reported absent, and the table never loses or merges labels however full it gets.""",
  IH, "all label sets, dimensions, table sizes and accumulation histories",
  "One fixed accumulation is tested.",
  ["toolbox/misc/vl_ihashsum.c", "toolbox/misc/vl_ihashfind.c"], [("double hashing with overflow area", "toolbox/misc/vl_ihashsum.c")])
p("X03", "ROC, precision-recall and DET curves equal direct counting",
  """For every labelling and scoring, ROC and precision-recall curves give at each rank the exact rates of the samples ranked above, with ignored
  (zero-label) and never-retrieved (minus-infinity) samples treated as documented, stable options and class normalisation applied, and the
  reported areas, equal error rate and average precision follow from the curve.""",
  I, "all labels, scores with ties and infinities, option combinations",
  "A few literal rankings are tested.",
  ["toolbox/plotop/vl_roc.m", "toolbox/plotop/vl_pr.m", "toolbox/plotop/vl_det.m", "toolbox/plotop/vl_tpfp.m"], [("curve computation", "toolbox/plotop")])
p("X04", "Image warps, local maxima and thin-plate tools compute their definition",
  """Backward warping returns the bilinear interpolation at each location and NaN outside; local maxima are exactly the interior strict maxima over
  the chosen dimensions and threshold; thin-plate spline and affine warps interpolate their control points; the distance transform, integral
  image, image gradient and up/down-sampling interfaces agree with direct computation; arrays of a wrong class are rejected.""",
  I, "all images, locations, dimensions, classes, thresholds, control points",
  "Tests check identity warps and a few kernels.",
  ["toolbox/imop/vl_imwbackwardmx.c", "toolbox/misc/vl_localmax.c", "toolbox/imop/vl_tpsumx.c", "toolbox/imop"], [("MEX implementations", "toolbox/imop, toolbox/misc")])
p("X05", "Pairwise distances and descriptor matching equal exhaustive computation",
  """The all-pairs distance interface returns for every class, metric and kernel the matrix of direct values; SIFT
  matching returns exactly the pairs whose best squared distance beats the second best by the given ratio, with the best distances.""",
  I, "all matrices, classes, metrics, thresholds",
  "A few random matrices are tested per metric.",
  ["toolbox/misc/vl_alldist2.c", "toolbox/misc/vl_alldist.c", "toolbox/sift/vl_ubcmatch.c"], [("MEX implementations", "toolbox/misc, toolbox/sift")])
p("X06", "Toolbox data helpers behave as documented",
  """Natural string sorting orders embedded numbers by value; column subsets have the requested size, mode and original columns; option parsing
  sets exactly the given fields and reports the rest or fails, also in nested structures; cumulative maxima, numeric derivatives, special
  functions, the Harris strength, mosaics and test patterns match direct computation; directories are created exactly as asked.""",
  I, "all inputs in the documented domain",
  "A few literal examples are tested.",
  ["toolbox/misc", "toolbox/special", "toolbox/misc/vl_argparse.m", "toolbox/imop/vl_imarray.m", "toolbox/imop/vl_impattern.m", "toolbox/vl_harris.m"], [("m-files", "toolbox/misc")])
p("X07", "Toolbox feature interfaces agree with the C library and conventions",
  """Frames and descriptors returned by the toolbox detectors and descriptors use one-based, x-first coordinates of the displayed image and agree
  with the C library on the transposed data for every image and option; region filling and ellipse conversion invert each other.""",
  IC, "all images and options",
  "Tests compare with recorded results on one or two images.",
  ["toolbox/sift", "toolbox/mser", "toolbox/misc/vl_hog.c", "toolbox/misc/vl_lbp.c"], [("MEX wrappers", "toolbox")])
p("X08", "Colour conversions are mutually inverse and follow the standards",
  """RGB to XYZ and back are mutually inverse for every working space on the gamut; XYZ to Lab and Luv follow the CIE formulas with the
  stated adaptation for all colours, including the dark linear segment.""",
  IC, "all colours and working spaces",
  "No test touches these.",
  ["toolbox/imop/vl_rgb2xyz.m", "toolbox/imop/vl_xyz2rgb.m", "toolbox/imop/vl_xyz2lab.m", "toolbox/imop/vl_xyz2luv.m"], [("m-files", "toolbox/imop")])
p("X09", "Learning functions of the toolbox do what the C library does",
  """vl_kmeans, vl_gmm, vl_fisher, vl_vlad, vl_kdtreebuild/query, vl_homkermap, vl_ikmeans, vl_hikmeans, vl_aib, vl_svmtrain, vl_rodr and
  vl_irodr return, for every data class, option combination and number of outputs, exactly what the C library computes with those options
  (documented defaults for those omitted, indexes counted from one, every requested output of the documented size and class); vl_twister
  is the MT19937 generator seeded by number, key or saved state; the trees they return can be pushed, cut and histogrammed
  (vl_hikmeanspush/hist, vl_ikmeanspush/hist, vl_aibhist, vl_aibcut/push/hist) with the documented meaning; arguments of inconsistent size,
  class or range are rejected with an error.""",
  IC, "all data, options and output counts", 
  "The toolbox tests call each function a few times with fixed options and mostly check that it returns.",
  ["toolbox/kmeans/vl_kmeans.c", "toolbox/gmm/vl_gmm.c", "toolbox/misc/vl_svmtrain.c", "toolbox/aib/vl_aibcut.m"], [("MEX", "toolbox/kmeans, gmm, fisher, vlad, aib, misc, geometry")])

p("X10", "No toolbox call touches memory it does not own or ends the interpreter",
  """Whatever arguments a toolbox MEX function is called with - any number, class, size, sparsity, complexity or value, NaN and infinite included,
  any option name and value, any number of outputs - the call either returns or raises an error: it never reads or writes memory outside its
  arrays, uses freed memory, aborts or crashes the interpreter, and a subsequent valid call still works.  Running out of time or memory
  because a huge result was asked for, and cyclic NEXT tables of the hash functions, are not judged.""",
  IC, "all argument lists of all 47 MEX functions",
  "The toolbox tests call the functions with valid arguments of one or two shapes; no test looks at memory accesses.",
  ["toolbox/mexutils.h", "toolbox/kmeans", "toolbox/gmm", "toolbox/misc", "toolbox/sift", "toolbox/imop", "toolbox/aib", "toolbox/slic", "toolbox/quickshift"], [("MEX argument checks", "toolbox/*/*.c:mexFunction"), ("argument predicates", "toolbox/mexutils.h")])

# properties whose check also has a toolbox part (checks/<ID>.py)
TOOLBOX = {"N04": "vl_rodr and vl_irodr", "N05": "vl_twister", "N07": "vl_imsmooth", "N08": "vl_imdisttf, vl_imintegral and vl_grad", "C01": "vl_kdtreebuild and vl_kdtreequery",
  "C02": "vl_kdtreebuild and vl_kdtreequery", "C03": "vl_kmeans", "C04": "vl_ikmeans, vl_hikmeans and their push functions", "C05": "vl_gmm", "C06": "vl_fisher", "C07": "vl_vlad",
  "C08": "vl_aib, vl_aibcut, vl_aibpush and vl_aibhist", "F02": "vl_sift", "F03": "vl_sift and vl_siftdescriptor", "F04": "vl_dsift", "F05": "vl_covdet", "F06": "vl_covdet", "F07": "vl_liop",
  "F08": "vl_hog", "F09": "vl_lbp", "F10": "vl_mser and vl_erfill", "G01": "vl_quickshift", "G02": "vl_slic", "L01": "vl_svmtrain", "L04": "vl_homkermap"}
for x in P:
    if x["id"] in TOOLBOX: x["statement"] += " The same holds through the toolbox interface (%s)." % TOOLBOX[x["id"]]

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [x["id"] for x in P]; assert len(set(ids)) == len(ids)
    for x in P: assert len(x["title"]) <= 80, x["id"]
    with open(root + "/properties.jsonl", "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
