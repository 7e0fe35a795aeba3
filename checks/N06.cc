// N06: qsort / heap templates, default and custom element access.
#include "vt.h"
#include "vl_all.h"
extern "C++" {
struct Arr { std::vector<int> key, tag, where; size_t limit; bool bad = false; bool rev = false; long cmps = 0; };
static double acmp(Arr const *a, vl_uindex i, vl_uindex j) { Arr *m = (Arr *)a; m->cmps++; if (i >= a->limit || j >= a->limit) { m->bad = true; return 0; } double d = (double)a->key[i] - a->key[j]; return a->rev ? -d : d; }
static void aswap(Arr *a, vl_uindex i, vl_uindex j) { if (i >= a->limit || j >= a->limit) { a->bad = true; return; } std::swap(a->key[i], a->key[j]); std::swap(a->tag[i], a->tag[j]); a->where[a->tag[i]] = (int)i; a->where[a->tag[j]] = (int)j; }
#define VL_QSORT_prefix qd
#define VL_QSORT_type double
#include <vl/qsort-def.h>
#define VL_QSORT_prefix qi
#define VL_QSORT_type long
#include <vl/qsort-def.h>
#define VL_QSORT_prefix qs
#define VL_QSORT_array Arr *
#define VL_QSORT_array_const Arr const *
#define VL_QSORT_cmp acmp
#define VL_QSORT_swap aswap
#include <vl/qsort-def.h>
#define VL_HEAP_prefix hd
#define VL_HEAP_type double
#include <vl/heap-def.h>
#define VL_HEAP_prefix hs
#define VL_HEAP_array Arr *
#define VL_HEAP_array_const Arr const *
#define VL_HEAP_cmp acmp
#define VL_HEAP_swap aswap
#include <vl/heap-def.h>
}
static std::vector<long> gen(vt::Ctx &c, size_t n) {
  std::vector<long> v(n); int cls = c.i(0, 5); vt::Stream s = c.stream(); long range = c.pick({1L, 2L, 5L, 100L, 1000000L});
  for (size_t i = 0; i < n; ++i) switch (cls) { case 0: v[i] = (long)s.below(range + 1); break; case 1: v[i] = (long)i; break; case 2: v[i] = -(long)i; break; case 3: v[i] = 7; break;
    case 4: v[i] = (long)(i < n / 2 ? i : n - i); break; default: v[i] = s.range(-range, range); }
  c.label("class %d", cls); return v;
}
VT_CHECK(sort, 40000, 1500000, "at least three elements") {
  size_t n = c.chance(1, 30) ? c.i(1, 1500) : c.i(1, 40); auto v = gen(c, n); auto e = v; std::sort(e.begin(), e.end()); int how = c.i(0, 2); if (n > 2) c.nontrivial();
  c.note("n=%zu how=%d", n, how); for (size_t i = 0; i < n && i < 40; ++i) c.note("%ld", v[i]);
  if (how == 0) { std::unique_ptr<double[]> p(new double[n]); for (size_t i = 0; i < n; ++i) p[i] = (double)v[i]; qd_sort(p.get(), n); for (size_t i = 0; i < n; ++i) VT_ASSERT(c, p[i] == e[i], "double sort wrong at %zu", i); }
  else if (how == 1) { std::unique_ptr<long[]> p(new long[n]); std::copy(v.begin(), v.end(), p.get()); qi_sort(p.get(), n); for (size_t i = 0; i < n; ++i) VT_ASSERT(c, p[i] == e[i], "integer sort wrong at %zu", i); }
  else { Arr a; a.limit = n; a.rev = c.b(); a.where.resize(n); for (size_t i = 0; i < n; ++i) { a.key.push_back((int)v[i]); a.tag.push_back((int)i); a.where[i] = (int)i; } if (a.rev) std::reverse(e.begin(), e.end());
    qs_sort(&a, n); VT_ASSERT(c, !a.bad, "comparison or swap outside the array"); std::set<int> t(a.tag.begin(), a.tag.end()); VT_ASSERT(c, t.size() == n, "elements lost");
    for (size_t i = 0; i < n; ++i) VT_ASSERT(c, a.key[i] == e[i] && a.key[i] == v[a.tag[i]], "custom sort wrong at %zu", i); }
}
VT_CHECK(heap_custom, 30000, 1000000, "at least ten operations including an update") {
  int nops = c.chance(1, 10) ? c.i(1, 400) : c.i(1, 50); Arr a; a.rev = c.b(); int cap = nops + 1; a.key.resize(cap); a.tag.resize(cap); a.where.assign(cap, -1); vl_size size = 0; std::multiset<int> model; std::map<int, int> val; int next = 0; int ups = 0; long range = c.pick({2L, 10L, 100000L}); int popw = c.i(1, 5);
  std::string log;
  auto better = [&](int x, int y) { return a.rev ? x > y : x < y; };
  for (int o = 0; o < nops; ++o) {
    int op = c.i(0, 9);
    if (op <= popw && size) {
      int before = a.rev ? *model.rbegin() : *model.begin(); a.limit = size; vl_uindex idx = hs_pop(&a, &size); log += "pop ";
      VT_ASSERT(c, !a.bad, "access outside the heap"); VT_ASSERT(c, idx == size, "pop returned index %zu, size is now %zu", (size_t)idx, (size_t)size);
      VT_ASSERT(c, a.key[idx] == before, "pop returned key %d but the best is %d (%s)", a.key[idx], before, log.c_str());
      VT_ASSERT(c, val.count(a.tag[idx]) && val[a.tag[idx]] == a.key[idx], "pop returned an element not in the heap"); val.erase(a.tag[idx]); model.erase(model.find(a.key[idx]));
    } else if (op <= 7 || !size) {
      int k = (int)c.i(0, range); a.key[size] = k; a.tag[size] = next; a.where[next] = (int)size; val[next] = k; ++next; model.insert(k); a.limit = size + 1; hs_push(&a, &size); log += vt::fmt("push%d ", k); VT_ASSERT(c, !a.bad && size == val.size(), "size after push");
    } else {
      vl_uindex i = (vl_uindex)c.i(0, size - 1); int k = (int)c.i(0, range); model.erase(model.find(a.key[i])); model.insert(k); val[a.tag[i]] = k; a.key[i] = k; a.limit = size; hs_update(&a, size, i); ++ups; log += vt::fmt("update%d ", k); VT_ASSERT(c, !a.bad, "access outside the heap");
    }
    if (size) { int best = a.rev ? *model.rbegin() : *model.begin(); VT_ASSERT(c, a.key[0] == best, "root %d, best contained %d (%s)", a.key[0], best, log.c_str()); }
  }
  (void)better; if (nops >= 10 && ups) c.nontrivial(); c.note("%s", log.c_str());
  while (size) { int best = a.rev ? *model.rbegin() : *model.begin(); a.limit = size; vl_uindex idx = hs_pop(&a, &size); VT_ASSERT(c, a.key[idx] == best, "drain: %d, best %d (%s)", a.key[idx], best, log.c_str()); VT_ASSERT(c, val.count(a.tag[idx]), "drain: duplicate element"); val.erase(a.tag[idx]); model.erase(model.find(best)); }
  VT_ASSERT(c, model.empty() && !a.bad, "drain left elements");
}
VT_CHECK(heap_default, 20000, 600000, "at least ten operations") {
  int nops = c.i(1, 80); std::unique_ptr<double[]> h(new double[nops]); vl_size size = 0; std::multiset<double> model;
  for (int o = 0; o < nops; ++o) {
    if (c.chance(2, 5) && size) { vl_uindex i = hd_pop(h.get(), &size); VT_ASSERT(c, h[i] == *model.begin() && i == size, "pop"); model.erase(model.begin()); }
    else { double v = c.i(-20, 20) * 0.5; h[size] = v; model.insert(v); hd_push(h.get(), &size); }
    if (size && c.chance(1, 5)) { vl_uindex i = c.i(0, size - 1); model.erase(model.find(h[i])); h[i] = c.i(-20, 20) * 0.5; model.insert(h[i]); hd_update(h.get(), size, i); }
    VT_ASSERT(c, size == model.size() && (!size || h[0] == *model.begin()), "root is not minimal");
  }
  if (nops >= 10) c.nontrivial(); c.note("%d operations", nops);
  std::multiset<double> m2(h.get(), h.get() + size); VT_ASSERT(c, m2 == model, "content differs");
}
int main(int a, char **b) { return vt::vt_main(a, b); }
