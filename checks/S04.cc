// S04: per-thread state and independent objects in concurrent threads. Built with ThreadSanitizer.
// VT-VARIANT: tsan
// VT-LDFLAGS: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=free
#include "vt.h"
#include "objects.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
// the exponential table of sift.c is rewritten with the same values by every new filter
extern "C" const char *__tsan_default_suppressions() { return "race:expn_tab\nrace:fast_expn\n"; }
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *); }
static std::mutex liveM; static std::unordered_map<void *, size_t> *live; static thread_local int busy = 0; static std::atomic<bool> tracking{false};
static void *keep(void *p, size_t n) { if (Lib::depth && !busy && tracking) { ++busy; { std::lock_guard<std::mutex> g(liveM); (*live)[p] = n; } --busy; } return p; }
extern "C" void *__wrap_malloc(size_t n) { return keep(__real_malloc(n), n); }
extern "C" void *__wrap_calloc(size_t a, size_t n) { return keep(__real_calloc(a, n), a * n); }
extern "C" void __wrap_free(void *p) { if (p && tracking && !busy) { ++busy; { std::lock_guard<std::mutex> g(liveM); live->erase(p); } --busy; } __real_free(p); }
struct Tracking { std::unordered_map<void *, size_t> m; Tracking() { live = &m; tracking = true; } ~Tracking() { tracking = false; } };

struct Op { int kind; int thread; int code; std::string msg; uint64_t seed; int n; };
struct Model { int err = 0; std::string msg; VlRand r; clock_t mark = 0; bool tic = false; Model() { vl_rand_init(&r); } };
static void run(const Op &o, Model &m, std::string &bad) {
  char t[200]; switch (o.kind) {
    case 0: { int q = L(vl_set_last_error(o.code, "%s", o.msg.c_str())); m.err = o.code; m.msg = o.msg.substr(0, VL_ERR_MSG_LEN - 1); if (q != o.code) bad = "vl_set_last_error did not return the code"; break; }
    case 1: { L(vl_set_last_error(o.code, NULL)); m.err = o.code; m.msg = ""; break; }
    case 2: { L(vl_rand_seed(vl_get_rand(), (vl_uint32)o.seed)); vl_rand_seed(&m.r, (vl_uint32)o.seed); break; }
    case 3: { VlRand *r = L(vl_get_rand()); for (int i = 0; i < o.n; ++i) { vl_uint32 a = vl_rand_uint32(r), b = vl_rand_uint32(&m.r); if (a != b) { bad = "the random stream of a thread was disturbed"; return; } } break; }
    case 4: { m.mark = clock(); L(vl_tic()); m.tic = true; break; }
    case 5: { if (!m.tic) break; clock_t before = clock(); double e = L(vl_toc()); (void)before; double hi = (clock() - m.mark) / (double)CLOCKS_PER_SEC; if (!(e >= 0 && e <= hi + 1e-9)) { snprintf(t, sizeof t, "vl_toc returned %g, at most %g s passed since this thread's vl_tic", e, hi); bad = t; } break; }
    case 6: { volatile double x = 1; clock_t c0 = clock(); while (clock() - c0 < 300) x = x * 1.0000001; break; }
    default: break; }
  int e = L(vl_get_last_error()); const char *g = L(vl_get_last_error_message()); if (e != m.err) { snprintf(t, sizeof t, "a thread set error %d and reads %d", m.err, e); bad = t; } else if (strnlen(g, VL_ERR_MSG_LEN) >= VL_ERR_MSG_LEN) bad = "error message is not terminated"; else if (m.msg != g) { bad = "a thread set the message \"" + m.msg.substr(0, 40) + "\" and reads \"" + std::string(g).substr(0, 40) + "\""; } }
VT_CHECK(thread_state, 2500, 50000, "at least two threads with an operation each") {
  int nt = (int)c.i(1, 4), n = (int)c.i(1, 24); bool lock = c.b(); std::vector<Op> ops; std::vector<int> per(nt, 0); vt::Stream s = c.stream();
  for (int i = 0; i < n; ++i) { Op o; o.thread = (int)c.i(0, nt - 1); o.kind = (int)c.pick({0, 0, 1, 2, 3, 3, 4, 5, 6}); o.code = (int)c.i(-3, 1000); int len = (int)c.pick({5, 0, 1, (int)VL_ERR_MSG_LEN - 1, (int)VL_ERR_MSG_LEN, (int)VL_ERR_MSG_LEN + 1, 3000, 40}); for (int k = 0; k < len; ++k) o.msg += (char)('a' + s.below(26)); o.seed = s.u64(); o.n = 1 + (int)s.below(700); ops.push_back(o); ++per[o.thread]; c.note("%d:%d ", o.thread, o.kind); }
  int act = 0; for (int q : per) act += q > 0; if (act > 1) c.nontrivial(); c.label("%s, %d threads", lock ? "generated interleaving" : "free running", nt);
  Tracking tr; std::vector<std::string> bad(nt); std::mutex M; std::condition_variable cv; int turn = 0; std::atomic<int> ready{0};
  std::vector<std::thread> th; for (int t = 0; t < nt; ++t) th.emplace_back([&, t]() { Model m; bool used = false; if (!lock) { ++ready; while (ready < nt) {} }
      for (int i = 0; i < n; ++i) { if (ops[i].thread != t) continue; if (lock) { std::unique_lock<std::mutex> g(M); cv.wait(g, [&]() { return turn == i; }); } if (bad[t].empty()) run(ops[i], m, bad[t]); used = true; if (lock) { { std::lock_guard<std::mutex> g(M); ++turn; } cv.notify_all(); } }
      if (used && bad[t].empty()) { Op o; o.kind = 9; run(o, m, bad[t]); o.kind = 3; o.n = 5; if (bad[t].empty()) run(o, m, bad[t]); } });
  for (auto &x : th) x.join(); for (int t = 0; t < nt; ++t) VT_ASSERT(c, bad[t].empty(), "thread %d: %s", t, bad[t].c_str()); VT_ASSERT(c, tr.m.empty(), "%zu blocks of thread state are left after the threads ended", tr.m.size());
}
VT_CHECK(objects, 1200, 25000, "at least two threads using objects") {
  int nt = (int)c.i(2, 4); struct Job { int kind; uint64_t cfg, in; Bytes want, got; bool err; }; std::vector<std::vector<Job>> jobs(nt); bool same = c.chance(1, 2); int k0 = (int)c.i(0, numKinds - 1); size_t total = 0; int act = 0;
  for (int t = 0; t < nt; ++t) { int n = (int)c.i(1, 3); ++act; for (int i = 0; i < n; ++i) { Job j; j.kind = same ? k0 : (int)c.i(0, numKinds - 1); j.cfg = c.seed(); j.in = c.seed(); j.err = c.chance(1, 3); jobs[t].push_back(j); ++total; c.note("%d:%s ", t, kindNames[j.kind]); c.label("%s", kindNames[j.kind]); } } if (act > 1) c.nontrivial();
  auto exec = [](Job &j) { vl_rand_seed(vl_get_rand(), (vl_uint32)(j.in * 31 + 7)); Obj *o = make(j.kind, j.cfg); Bytes b = o->use(j.in); delete o; return b; };
  for (auto &v : jobs) for (auto &j : v) j.want = exec(j);
  std::atomic<int> ready{0}; std::vector<std::string> bad(nt); std::vector<std::thread> th; for (int t = 0; t < nt; ++t) th.emplace_back([&, t]() { ++ready; while (ready < nt) {} for (auto &j : jobs[t]) { if (j.err) vl_set_last_error(5000 + t, "thread %d", t); j.got = exec(j); if (vl_get_last_error() >= 5000 && (vl_get_last_error() != 5000 + t || std::string(vl_get_last_error_message()) != "thread " + std::to_string(t))) bad[t] = "error state of another thread seen while using " + std::string(kindNames[j.kind]); } });
  for (auto &x : th) x.join(); for (int t = 0; t < nt; ++t) { VT_ASSERT(c, bad[t].empty(), "thread %d: %s", t, bad[t].c_str()); for (auto &j : jobs[t]) VT_ASSERT(c, j.got == j.want, "%s used in thread %d while others run gives a different result than alone", kindNames[j.kind], t); }
}
int main(int a, char **b) { return vt::vt_main(a, b); }
