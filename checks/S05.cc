// S05: memory goes through the configured allocator and comes back exactly once; reuse equals a fresh object; copies are independent.
// VT-LDFLAGS: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include "vt.h"
#include "objects.h"
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
static thread_local int inTracker = 0; static long directCalls = 0;
extern "C" void *__wrap_malloc(size_t n) { if (Lib::depth && !inTracker) ++directCalls; return __real_malloc(n); }
extern "C" void *__wrap_calloc(size_t a, size_t n) { if (Lib::depth && !inTracker) ++directCalls; return __real_calloc(a, n); }
extern "C" void *__wrap_realloc(void *p, size_t n) { if (Lib::depth && !inTracker) ++directCalls; return __real_realloc(p, n); }
extern "C" void __wrap_free(void *p) { if (Lib::depth && !inTracker && p) ++directCalls; __real_free(p); }
struct Track { std::unordered_map<void *, size_t> live; size_t allocs = 0; std::string error; uint64_t pattern = 0; };
static Track *T;
struct In { int d; In() : d(Lib::depth) { ++inTracker; } ~In() { --inTracker; } };
static void *t_alloc(size_t n, bool zero) { In in; void *p; if (posix_memalign(&p, 64, std::max<size_t>(n, 1))) abort(); if (zero) memset(p, 0, n); else { static const unsigned char pat[] = {0xff, 0x00, 0x7f, 0x41, 0x01, 0xcc}; memset(p, pat[T->pattern++ % 6], std::min<size_t>(n, 1 << 16)); } T->live[p] = n; ++T->allocs; return p; }
static void t_free(void *p) { In in; if (!p) return; auto i = T->live.find(p); if (i == T->live.end()) { if (T->error.empty()) T->error = "a block that is not live (never allocated here, or freed twice) was freed"; return; } T->live.erase(i); __real_free(p); }
static void *t_malloc(size_t n) { return t_alloc(n, false); }
static void *t_calloc(size_t a, size_t n) { return t_alloc(a * n, true); }
static void *t_realloc(void *p, size_t n) { In in; if (!p) return t_alloc(n, false); auto i = T->live.find(p); if (i == T->live.end()) { if (T->error.empty()) T->error = "a block that is not live was reallocated"; return p; } size_t old = i->second; void *q = t_alloc(n, false); memcpy(q, p, std::min(old, n)); t_free(p); return q; }
struct Session { Track t; Session() { vl_rand_seed(vl_get_rand(), 1); T = &t; directCalls = 0; vl_set_alloc_func(t_malloc, t_realloc, t_calloc, t_free); } ~Session() { vl_set_alloc_func(malloc, realloc, calloc, free); }
  void check(vt::Ctx &c, const char *when, const char *kind) { VT_ASSERT(c, t.error.empty(), "%s, %s: %s", kind, when, t.error.c_str()); VT_ASSERT(c, directCalls == 0, "%s, %s: the library called the C allocator directly instead of the configured functions", kind, when); } };
static uint64_t rs(uint64_t s) { return s * 7919 + 3; }
static Bytes useWith(Obj *o, uint64_t seed) { vl_rand_seed(vl_get_rand(), (vl_uint32)rs(seed)); return o->use(seed); }

VT_CHECK(histories, 12000, 220000, "at least two uses of the same object, or a copy") {
  int kind = (int)c.i(0, numKinds - 1); const char *kn = kindNames[kind]; c.label("%s", kn); c.note("%s:", kn); Session S; struct E { Obj *o; uint64_t cfg; Bytes st; bool copied; int uses; }; std::vector<E> pool; int n = (int)c.i(1, 7); int reuse = 0, copies = 0;
  struct Guard { std::vector<E> &p; ~Guard() { for (auto &e : p) delete e.o; } } guard{pool};
  auto add = [&](uint64_t cfg) { Obj *o = make(kind, cfg); pool.push_back({o, cfg, o->state(), false, 0}); S.check(c, "creation", kn); }; add(c.seed());
  for (int i = 0; i < n; ++i) { size_t j = pool.empty() ? 0 : c.i(0, pool.size() - 1); int op = pool.empty() ? 0 : (int)c.pick({1, 1, 1, 2, 3, 4, 0, 1});
    if (op == 0) { c.note(" new"); if (pool.size() < 4) add(c.seed()); }
    else if (op == 1) { E &e = pool[j]; uint64_t seed = c.seed(); c.note(" use%zu", j); Bytes got = useWith(e.o, seed); S.check(c, "use", kn); reuse += e.uses++ > 0;
      if (!e.copied) { Obj *f = make(kind, e.cfg); Bytes want = useWith(f, seed); delete f; S.check(c, "use of a fresh object", kn); if (got != want) { if (getenv("VT_DUMP")) { for (size_t q = 0; q + 4 <= got.size(); q += 4) { float A, B; memcpy(&A, got.data() + q, 4); memcpy(&B, want.data() + q, 4); c.note("%zu %.9g %.9g\n", q, A, B); } } size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; c.fail("%s: an object used %d times before returns a different result than a fresh one (results of %zu and %zu bytes, first difference at byte %zu)", kn, e.uses - 1, got.size(), want.size(), k); } }
      else { Obj *x = e.o->copy(); if (x) { Bytes again = useWith(x, seed), once = useWith(e.o, seed); delete x; VT_ASSERT(c, again == once, "%s: a copy gives a different result from its original", kn); } }
      e.st = e.o->state(); }
    else if (op == 2) { E e = pool[j]; Obj *k = e.o->copy(); S.check(c, "copy", kn); if (k) { c.note(" copy%zu", j); ++copies; Bytes st = k->state(); VT_ASSERT(c, st == e.o->state(), "%s: the state of a copy differs from that of its original", kn); if (pool.size() < 5) pool.push_back({k, e.cfg, st, true, 1}); else delete k; } }
    else if (op == 3) { c.note(" delete%zu", j); delete pool[j].o; pool.erase(pool.begin() + j); S.check(c, "deletion", kn); }
    else { c.note(" reset%zu", j); pool[j].o->reset(); pool[j].st = pool[j].o->state(); S.check(c, "reset", kn); }
    for (size_t q = 0; q < pool.size(); ++q) VT_ASSERT(c, pool[q].o->state() == pool[q].st, "%s: an operation on another object changed object %zu", kn, q); }
  for (auto &e : pool) { delete e.o; e.o = nullptr; } pool.clear(); S.check(c, "final deletion", kn); size_t bytes = 0; for (auto &l : S.t.live) bytes += l.second; VT_ASSERT(c, S.t.live.empty(), "%s: %zu blocks (%zu bytes) were not returned to the allocator after deletion", kn, S.t.live.size(), bytes); if (reuse || copies) c.nontrivial(); c.label("%s", copies ? "with copies" : reuse ? "reused" : "single use"); }
int main(int a, char **b) { return vt::vt_main(a, b); }
