// VLFeat public headers for C++ harnesses
#pragma once
extern "C" {
#include <vl/generic.h>
#include <vl/host.h>
#include <vl/mathop.h>
#include <vl/imopv.h>
#include <vl/random.h>
#include <vl/stringop.h>
#include <vl/array.h>
#include <vl/rodrigues.h>
#include <vl/pgm.h>
#include <vl/getopt_long.h>
#include <vl/kdtree.h>
#include <vl/kmeans.h>
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
#include <vl/gmm.h>
#include <vl/fisher.h>
#include <vl/vlad.h>
#include <vl/aib.h>
#include <vl/scalespace.h>
#include <vl/sift.h>
#include <vl/dsift.h>
#include <vl/covdet.h>
#include <vl/liop.h>
#include <vl/hog.h>
#include <vl/lbp.h>
#include <vl/mser.h>
#include <vl/quickshift.h>
#include <vl/slic.h>
#include <vl/homkermap.h>
#include <vl/svm.h>
#include <vl/svmdataset.h>
}
