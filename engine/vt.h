// vt: a small property-based testing engine with tape recording, forked
// workers, shrinking and replay.  One translation unit per property includes
// this header, registers sub-checks with VT_CHECK and gets main() for free.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vt {

struct Fail { std::string msg; };
struct KnownFail { std::string id, msg; };
struct Discard {};

static inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static inline uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
static inline std::string vfmt(const char *f, va_list ap) {
  va_list ap2; va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap2); va_end(ap2);
  std::string s(n + 1, 0); vsnprintf(&s[0], n + 1, f, ap); s.resize(n); return s;
}
static inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }

// Pseudo-random stream derived from one recorded choice: used to fill large
// arrays without one tape entry per element.
struct Stream {
  uint64_t s;
  explicit Stream(uint64_t seed) : s(seed * 0x2545F4914F6CDD1DULL + 12345) {}
  uint64_t u64() { return splitmix(s); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * uni(); }
  double gauss() { double u = uni() + 1e-300, v = uni(); return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
};

class Ctx {
 public:
  // generation or replay
  std::vector<uint64_t> tape;   // recorded / replayed choices
  size_t pos = 0;
  bool replaying = false;
  uint64_t rng = 0;
  int pipefd = -1;
  char *noteshm = nullptr;
  // result annotations
  bool nontriv = false;
  std::vector<std::string> labels;
  std::string notes;
  bool verbose = false;
  bool thorough = false;

  uint64_t draw(uint64_t n) {   // uniform in [0,n); 0 is the simplest choice
    uint64_t v;
    if (replaying) { v = pos < tape.size() ? tape[pos] : 0; if (n && v >= n) v = n - 1; ++pos; return v; }
    v = splitmix(rng); if (n) v %= n;
    tape.push_back(v); ++pos;
    if (pipefd >= 0) { if (write(pipefd, &v, 8) != 8) _exit(9); }
    return v;
  }
  // integer in [lo,hi], uniform, shrinking towards lo
  int64_t i(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
  // integer in [lo,hi], small values more likely
  int64_t small(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)(hi - lo) + 1;
    int bits = 0; while (bits < 62 && (1ULL << bits) < span) ++bits;
    uint64_t b = draw((uint64_t)bits + 1);
    uint64_t m = b >= (uint64_t)bits ? span : std::min<uint64_t>(span, 1ULL << b);
    return lo + (int64_t)draw(m);
  }
  bool b() { return draw(2); }
  bool chance(int num, int den) { return (int)draw(den) >= den - num; }  // 0 -> false
  double uni() { return draw(1ULL << 53) * (1.0 / 9007199254740992.0); }
  double real(double a, double b_) { return a + (b_ - a) * uni(); }
  uint64_t seed() { return draw(0); }
  Stream stream() { return Stream(draw(1ULL << 32)); }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
  template <class T> const T &pick(const std::vector<T> &l) { return l[draw(l.size())]; }

  void nontrivial() { nontriv = true; }
  void label(const char *f, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap; va_start(ap, f); labels.push_back(vfmt(f, ap)); va_end(ap); }
  void note(const char *f, ...) __attribute__((format(printf, 2, 3))) {
    if (notes.size() > 4000) return;
    va_list ap; va_start(ap, f); notes += vfmt(f, ap); notes += ' '; va_end(ap);
    if (noteshm) { size_t n = std::min<size_t>(notes.size(), 4095); memcpy(noteshm, notes.data(), n); noteshm[n] = 0; } }
  void fail(const char *f, ...) __attribute__((format(printf, 2, 3), noreturn)) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw Fail{s}; }
  // a failure that matches a specific recorded finding
  void known(const char *id, const char *f, ...) __attribute__((format(printf, 3, 4), noreturn)) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw KnownFail{id, s}; }
  void discard() { throw Discard{}; }
};

#define VT_ASSERT(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

struct Check {
  const char *name;
  long quick, thorough;
  std::function<void(Ctx &)> fn;
  const char *rule;
};
static std::vector<Check> &checks() { static std::vector<Check> v; return v; }
struct Reg { Reg(const char *n, long q, long t, const char *rule, std::function<void(Ctx &)> f) { checks().push_back({n, q, t, f, rule}); } };
// VT_CHECK(name, quick cases, thorough cases, "what makes a case non-trivial") { body using c }
#define VT_CHECK(name, q, t, rule) \
  static void vt_fn_##name(vt::Ctx &c); \
  static vt::Reg vt_reg_##name(#name, q, t, rule, vt_fn_##name); \
  static void vt_fn_##name(vt::Ctx &c)

// ------------------------------------------------------------------ runner
struct Options {
  std::string prop = "X00", tier = "quick", replay_dir = "replays", evidence, only, replay;
  std::set<std::string> known;
  uint64_t seed = 1; int workers = 8; double scale = 1.0; double soft_s = 300; double case_cpu_s = 20;
  bool fuzz_stats = false;
};
static Options opt;
// per-process hooks a property may set
static std::function<void()> on_case_begin;

enum class Out { Ok, Discarded, Failed, Known, Crashed, Hung };

static inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static Out run_case(const Check &ck, Ctx &c, std::string &msg, std::string &kid) {
  c.thorough = opt.tier == "thorough";
  try { if (on_case_begin) on_case_begin(); ck.fn(c); return Out::Ok; }
  catch (Discard &) { return Out::Discarded; }
  catch (KnownFail &k) { msg = k.msg; kid = k.id; return opt.known.count(k.id) ? Out::Known : Out::Failed; }
  catch (Fail &f) { msg = f.msg; return Out::Failed; }
  catch (std::exception &e) { msg = std::string("exception: ") + e.what(); return Out::Failed; }
}

static std::string sanitize_head(const std::string &path) {
  std::string out; FILE *f = fopen(path.c_str(), "r"); if (!f) return out;
  char line[512]; int n = 0;
  while (fgets(line, sizeof line, f) && n < 40) { out += line; ++n; }
  fclose(f); return out;
}

// run one tape in a child; returns outcome
static Out run_forked(const Check &ck, const std::vector<uint64_t> &tape, std::string &msg, std::string *notes = nullptr,
                      std::vector<uint64_t> *used = nullptr) {
  int p[2]; if (pipe(p)) { perror("pipe"); exit(3); }
  std::string errf = fmt("/tmp/vt-err-%d-XXXXXX", (int)getpid()); std::vector<char> ef(errf.begin(), errf.end()); ef.push_back(0);
  int efd = mkstemp(ef.data());
  char *shm = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    close(p[0]);
    dup2(efd, 2); dup2(efd, 1);
    struct rlimit rl = {(rlim_t)opt.case_cpu_s, (rlim_t)opt.case_cpu_s + 5}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    Ctx c; c.tape = tape; c.replaying = true; c.noteshm = shm;
    std::string m, k; Out o = run_case(ck, c, m, k);
    FILE *f = fdopen(p[1], "w");
    fprintf(f, "%d\n%zu\n", (int)o, std::min(c.pos, tape.size()));
    fprintf(f, "%zu\n", m.size()); fwrite(m.data(), 1, m.size(), f);
    fprintf(f, "%zu\n", c.notes.size()); fwrite(c.notes.data(), 1, c.notes.size(), f);
    fclose(f); _exit(0);
  }
  close(p[1]);
  std::string buf; char tmp[4096]; ssize_t n;
  while ((n = read(p[0], tmp, sizeof tmp)) > 0) buf.append(tmp, n);
  close(p[0]);
  int st; waitpid(pid, &st, 0); close(efd);
  Out res; size_t nused = 0, ml = 0; int o; int off = 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sscanf(buf.c_str(), "%d\n%zu\n%zu\n%n", &o, &nused, &ml, &off) >= 3) {
    res = (Out)o; msg = buf.substr(off, ml);
    size_t nl = 0; int off2 = 0;
    if (sscanf(buf.c_str() + off + ml, "%zu\n%n", &nl, &off2) >= 1 && notes) *notes = buf.substr(off + ml + off2, nl);
    if (used) used->assign(tape.begin(), tape.begin() + std::min(nused, tape.size()));
  } else {
    bool hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL);
    res = hang ? Out::Hung : Out::Crashed;
    msg = hang ? fmt("no result after %.0f s of CPU time", opt.case_cpu_s)
               : (WIFSIGNALED(st) ? fmt("terminated by signal %d", WTERMSIG(st)) : fmt("exited with status %d", WEXITSTATUS(st)));
    std::string h = sanitize_head(ef.data()); if (!h.empty()) msg += "\n" + h;
    if (used) *used = tape;
    if (notes) *notes = shm;
  }
  munmap(shm, 4096);
  unlink(ef.data());
  return res;
}
static inline bool bad(Out o) { return o == Out::Failed || o == Out::Crashed || o == Out::Hung; }

static std::vector<uint64_t> shrink(const Check &ck, std::vector<uint64_t> best, Out kind, double budget_s, long max_runs) {
  double t0 = now(); long runs = 0; std::string m;
  auto ok = [&]() { return now() - t0 < budget_s && runs < max_runs; };
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (!ok()) return false;
    ++runs; std::vector<uint64_t> used; Out o = run_forked(ck, cand, m, nullptr, &used);
    if (bad(o) && (o == Out::Hung) == (kind == Out::Hung)) { if (used.size() < cand.size()) best = used; else best = cand; return true; }
    return false;
  };
  bool progress = true;
  while (progress && ok()) {
    progress = false;
    for (size_t k : {64, 16, 8, 4, 2, 1})
      for (size_t i2 = 0; i2 + k <= best.size() && ok();) {
        std::vector<uint64_t> cnd(best); cnd.erase(cnd.begin() + i2, cnd.begin() + i2 + k);
        if (attempt(cnd)) progress = true; else i2 += k;
      }
    for (size_t k : {16, 4, 1})
      for (size_t i2 = 0; i2 < best.size() && ok(); i2 += k) {
        std::vector<uint64_t> cnd(best); bool ch = false;
        for (size_t j = i2; j < std::min(best.size(), i2 + k); ++j) { if (cnd[j]) ch = true; cnd[j] = 0; }
        if (ch && attempt(cnd)) progress = true;
      }
    for (size_t i2 = 0; i2 < best.size() && ok(); ++i2) {
      uint64_t lo = 0, hi = best[i2];
      for (int it = 0; it < 12 && lo < hi && ok(); ++it) {
        uint64_t mid = lo + (hi - lo) / 2; if (mid >= best[i2]) break;
        std::vector<uint64_t> cnd(best); cnd[i2] = mid;
        if (attempt(cnd)) { progress = true; if (i2 >= best.size()) break; hi = best[i2]; } else lo = mid + 1;
      }
    }
  }
  return best;
}

static std::string jesc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch >= 127) o += fmt("\\u%04x", ch);
    else o += ch;
  }
  return o + "\"";
}

struct Shared { std::atomic<long> cur; std::atomic<int> state; std::atomic<double> start; };
struct Stats { long evals = 0, disc = 0, nontriv = 0; std::set<uint64_t> distinct; std::map<std::string, long> labels; std::vector<std::string> samples; std::map<std::string, std::string> knowns; bool truncated = false; };

static uint64_t case_seed(const Check &ck, long idx) {
  uint64_t s = opt.seed * 0x9E3779B97F4A7C15ULL ^ hash64(ck.name, strlen(ck.name)) ^ hash64(opt.prop.data(), opt.prop.size());
  splitmix(s); s ^= (uint64_t)idx * 0xD1342543DE82EF95ULL; splitmix(s); return s;
}

static void worker(const Check &ck, long first, long step, long total, Shared *sh, double deadline, FILE *out, FILE *outfail) {
  Stats st;
  auto flush_stats = [&]() {
    fprintf(out, "S %ld %ld %ld %d\n", st.evals, st.disc, st.nontriv, (int)st.truncated);
    for (auto h : st.distinct) fprintf(out, "D %llx\n", (unsigned long long)h);
    for (auto &l : st.labels) fprintf(out, "L %ld %s\n", l.second, l.first.c_str());
    for (auto &s : st.samples) { std::string t = s; for (auto &ch : t) if (ch == '\n') ch = ' '; fprintf(out, "P %s\n", t.c_str()); }
    for (auto &k : st.knowns) { std::string t = k.second; for (auto &ch : t) if (ch == '\n') ch = ' '; fprintf(out, "K %s %s\n", k.first.c_str(), t.c_str()); }
    fflush(out);
  };
  for (long idx = first; idx < total; idx += step) {
    if (now() > deadline) { st.truncated = true; break; }
    if (sh->state.load() == 2) break;     // another worker failed
    Ctx c; c.rng = case_seed(ck, idx);
    sh->cur = idx; sh->start = now(); 
    std::string msg, kid;
    Out o = run_case(ck, c, msg, kid);
    st.evals++;
    if (o == Out::Discarded) { st.disc++; continue; }
    if (o == Out::Known) { st.knowns[kid] = msg; st.labels["known:" + kid]++; }
    if (c.nontriv) { st.nontriv++; if (st.distinct.size() < 2000000) st.distinct.insert(hash64(c.tape.data(), c.tape.size() * 8)); }
    for (auto &l : c.labels) st.labels[l]++;
    if (st.samples.size() < 2 && c.nontriv && !c.notes.empty()) st.samples.push_back(c.notes);
    if (bad(o)) {
      fprintf(outfail, "F %ld %zu", idx, c.tape.size()); for (auto v : c.tape) fprintf(outfail, " %llu", (unsigned long long)v); fprintf(outfail, "\n");
      fflush(outfail); flush_stats(); fclose(outfail); fclose(out); _exit(7);
    }
  }
  sh->cur = -1;
  flush_stats(); fclose(out); fclose(outfail); _exit(0);
}

// run cases first, first+step, ..., last in one child; true if the last one (or an earlier one) fails
static bool run_sequence(const Check &ck, long first, long step, long last, std::string &msg) {
  int p[2]; if (pipe(p)) exit(3);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
    struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    for (long idx = first; idx <= last; idx += step) {
      Ctx c; c.rng = case_seed(ck, idx); std::string m, k; Out o = run_case(ck, c, m, k);
      if (bad(o)) { std::string t = m + " case: " + c.notes; if (write(p[1], t.data(), t.size()) < 0) {} _exit(7); }
    }
    _exit(0);
  }
  close(p[1]); msg.clear(); char tb[4096]; ssize_t n; while ((n = read(p[0], tb, sizeof tb)) > 0) msg.append(tb, n);
  close(p[0]); int st; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (msg.empty()) msg = "crash";
  return true;
}

static std::string write_replay(const Check &ck, const std::vector<uint64_t> &tape, const std::string &msg, const std::string &notes) {
  mkdir(opt.replay_dir.c_str(), 0755);
  uint64_t h = hash64(tape.data(), tape.size() * 8);
  std::string path = fmt("%s/%s-%s-%08llx.replay", opt.replay_dir.c_str(), opt.prop.c_str(), ck.name, (unsigned long long)(h & 0xffffffff));
  FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(3); }
  fprintf(f, "property %s\ncheck %s\ntape %zu\n", opt.prop.c_str(), ck.name, tape.size());
  for (auto v : tape) fprintf(f, "%llu ", (unsigned long long)v);
  fprintf(f, "\n# message: %s\n# case: %s\n", msg.c_str(), notes.c_str());
  fclose(f); return path;
}

static int do_replay(const std::string &path) {
  FILE *f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); return 3; }
  char prop[64], name[256], kind[32]; size_t n = 0;
  if (fscanf(f, "property %63s check %255s %31s", prop, name, kind) != 3) { fprintf(stderr, "bad replay file\n"); return 3; }
  bool isseq = !strcmp(kind, "sequence"); if (!isseq && fscanf(f, "%zu", &n) != 1) return 3;
  if (isseq) {
    unsigned long long sd; long a, b, l; char tier[32]; if (fscanf(f, "%llu %ld %ld %ld %31s", &sd, &a, &b, &l, tier) != 5) return 3;
    fclose(f); opt.seed = sd; opt.tier = tier;
    for (auto &ck : checks()) if (!strcmp(ck.name, name)) {
      std::string m; if (run_sequence(ck, a, b, l, m)) { printf("%s\nVIOLATION property=%s replay=%s\n", m.c_str(), opt.prop.c_str(), path.c_str()); return 1; }
      printf("replay: sequence ok\n"); return 0;
    }
    return 3;
  }
  std::vector<uint64_t> tape(n); for (auto &v : tape) { unsigned long long x; if (fscanf(f, "%llu", &x) != 1) x = 0; v = x; }
  fclose(f);
  for (auto &ck : checks()) if (!strcmp(ck.name, name)) {
    std::string m, notes; Out o = run_forked(ck, tape, m, &notes);
    printf("case: %s\n", notes.c_str());
    if (bad(o)) { printf("%s\nVIOLATION property=%s replay=%s\n", m.c_str(), opt.prop.c_str(), path.c_str()); return 1; }
    printf("replay: outcome %s\n", o == Out::Ok ? "ok" : o == Out::Known ? "known finding" : "discarded"); return 0;
  }
  fprintf(stderr, "no such check %s\n", name); return 3;
}

static int vt_main(int argc, char **argv) {
  for (int a = 1; a < argc; ++a) {
    std::string s = argv[a]; auto val = [&]() { return std::string(a + 1 < argc ? argv[++a] : ""); };
    if (s == "--prop") opt.prop = val(); else if (s == "--tier") opt.tier = val();
    else if (s == "--seed") opt.seed = strtoull(val().c_str(), 0, 10);
    else if (s == "--workers") opt.workers = atoi(val().c_str());
    else if (s == "--evidence") opt.evidence = val(); else if (s == "--replays") opt.replay_dir = val();
    else if (s == "--only") opt.only = val(); else if (s == "--replay") opt.replay = val();
    else if (s == "--scale") opt.scale = atof(val().c_str()); else if (s == "--soft") opt.soft_s = atof(val().c_str());
    else if (s == "--known") { std::string k = val(); opt.known.insert(k); }
    else { fprintf(stderr, "unknown option %s\n", s.c_str()); return 3; }
  }
  signal(SIGPIPE, SIG_IGN);
  if (!opt.replay.empty()) return do_replay(opt.replay);
  double t0 = now(); int rc = 0; long violations = 0;
  std::map<std::string, std::string> knownhit;
  std::string ev_checks; Stats all; std::string rules; long tot_distinct = 0; std::vector<std::string> samples;
  long nsel = 0; double weight_total = 0; for (auto &ck : checks()) if (opt.only.empty() || opt.only == ck.name) { ++nsel; }
  double soft_end = t0 + opt.soft_s; (void)weight_total;
  long done = 0;
  for (auto &ck : checks()) {
    if (!opt.only.empty() && opt.only != ck.name) continue;
    long total = (long)((opt.tier == "thorough" ? ck.thorough : ck.quick) * opt.scale); if (total < 1) total = 1;
    double tc = now();
    // share the remaining soft budget between the remaining checks (at least 3x the fair share may be used)
    double deadline = std::min(soft_end, tc + 3.0 * (soft_end - tc) / std::max(1L, nsel - done)); ++done;
    if (deadline < tc + 5) deadline = tc + 5;
    int W = (int)std::min<long>(opt.workers, total);
    Shared *sh = (Shared *)mmap(0, sizeof(Shared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(W); std::vector<FILE *> outs(W), fails(W), errs(W);
    fflush(stdout); fflush(stderr);
    for (int w = 0; w < W; ++w) {
      new (&sh[w]) Shared(); sh[w].cur = -1; sh[w].state = 0; sh[w].start = now();
      outs[w] = tmpfile(); fails[w] = tmpfile(); errs[w] = tmpfile();
    }
    for (int w = 0; w < W; ++w) {
      pids[w] = fork();
      if (pids[w] == 0) {
        struct rlimit rcr = {0, 0}; setrlimit(RLIMIT_CORE, &rcr);
        dup2(fileno(errs[w]), 2); dup2(fileno(errs[w]), 1);
        worker(ck, w, W, total, &sh[w], deadline, outs[w], fails[w]);
      }
    }
    int alive = W; long failcase = -1; std::vector<uint64_t> failtape; std::vector<bool> dead(W, false);
    while (alive) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        int w = -1; for (int k = 0; k < W; ++k) if (pids[k] == p) w = k;
        if (w < 0) continue;
        dead[w] = true; --alive;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          for (int k = 0; k < W; ++k) sh[k].state = 2;
          long cidx = -1; std::vector<uint64_t> tp;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 7) {
            rewind(fails[w]); size_t n = 0; 
            if (fscanf(fails[w], "F %ld %zu", &cidx, &n) == 2) { tp.resize(n); for (auto &v : tp) { unsigned long long x = 0; if (fscanf(fails[w], "%llu", &x) != 1) x = 0; v = x; } }
          } else cidx = sh[w].cur;
          if (failcase < 0 || (cidx >= 0 && cidx < failcase)) { failcase = cidx; failtape = tp; }
        }
      } else {
        double t = now();
        for (int w = 0; w < W; ++w) if (!dead[w] && sh[w].cur >= 0) {
          // a case running very long in wall-clock time: check its CPU time before calling it hung
          if (t - sh[w].start > 3 * opt.case_cpu_s) kill(pids[w], SIGKILL);
        }
        usleep(2000);
      }
    }
    Stats st;
    for (int w = 0; w < W; ++w) {
      rewind(outs[w]); char *line = nullptr; size_t cap = 0;
      while (getline(&line, &cap, outs[w]) > 0) {
        if (line[0] == 'S') { long a, b2, c2; int tr; if (sscanf(line, "S %ld %ld %ld %d", &a, &b2, &c2, &tr) == 4) { st.evals += a; st.disc += b2; st.nontriv += c2; if (tr) st.truncated = true; } }
        else if (line[0] == 'D') st.distinct.insert(strtoull(line + 2, 0, 16));
        else if (line[0] == 'L') { char *e; long k = strtol(line + 2, &e, 10); std::string nm = e + 1; while (!nm.empty() && nm.back() == '\n') nm.pop_back(); st.labels[nm] += k; }
        else if (line[0] == 'P') { std::string s2 = line + 2; while (!s2.empty() && s2.back() == '\n') s2.pop_back(); if (st.samples.size() < 3) st.samples.push_back(s2); }
        else if (line[0] == 'K') { char id[128]; int o2 = 0; if (sscanf(line, "K %127s %n", id, &o2) == 1) { std::string m2 = line + o2; while (!m2.empty() && m2.back() == '\n') m2.pop_back(); knownhit[id] = m2; } }
      }
      free(line); 
    }
    bool violated = false;
    if (failcase >= 0) {
      if (failtape.empty()) {   // crash or hang: regenerate the case in a child that streams its choices
        int pp[2]; if (pipe(pp)) exit(3);
        pid_t p = fork();
        if (p == 0) {
          close(pp[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
          struct rlimit rl = {(rlim_t)opt.case_cpu_s, (rlim_t)opt.case_cpu_s + 5}; setrlimit(RLIMIT_CPU, &rl);
          Ctx c; c.rng = case_seed(ck, failcase); c.pipefd = pp[1]; std::string m1, k1;
          run_case(ck, c, m1, k1); _exit(0);
        }
        close(pp[1]); std::string raw; char tb[65536]; ssize_t n; int s2; uint64_t v;
        while ((n = read(pp[0], tb, sizeof tb)) > 0) raw.append(tb, n);
        close(pp[0]); waitpid(p, &s2, 0);
        for (size_t k = 0; k + 8 <= raw.size(); k += 8) { memcpy(&v, raw.data() + k, 8); failtape.push_back(v); }
      }
      std::string m, notes; Out kind = run_forked(ck, failtape, m, &notes);
      int rep = bad(kind) ? 1 : 0;
      for (int k = 0; k < 2 && rep; ++k) { std::string m2; Out o = run_forked(ck, failtape, m2); if (bad(o)) ++rep; }
      if (rep == 3) {
        auto best = shrink(ck, failtape, kind, opt.tier == "thorough" ? 120 : 40, kind == Out::Hung ? 2 : 4000);
        kind = run_forked(ck, best, m, &notes);
        if (!bad(kind)) { best = failtape; kind = run_forked(ck, best, m, &notes); }
        std::string path = write_replay(ck, best, m, notes);
        printf("[%s/%s] case %ld (shrunk to %zu choices): %s\n  case: %s\n", opt.prop.c_str(), ck.name, failcase, best.size(), m.c_str(), notes.c_str());
        printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), path.c_str());
        violated = true; rc = 1; ++violations;
      } else {
        // not reproducible in isolation: state carried over between cases?  Re-run the worker's whole sequence of cases.
        int w0 = (int)(failcase % W), rs = 0; std::string ms;
        for (int k = 0; k < 3; ++k) if (run_sequence(ck, w0, W, failcase, ms)) ++rs; else break;
        if (rs == 3) {
          mkdir(opt.replay_dir.c_str(), 0755);
          std::string path = fmt("%s/%s-%s-seq%ld.replay", opt.replay_dir.c_str(), opt.prop.c_str(), ck.name, failcase);
          FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); return 3; }
          fprintf(f, "property %s\ncheck %s\nsequence %llu %d %d %ld %s\n# message: %s\n", opt.prop.c_str(), ck.name, (unsigned long long)opt.seed, w0, W, failcase, opt.tier.c_str(), ms.c_str());
          fclose(f);
          printf("[%s/%s] case %ld fails after the preceding cases: %s\nVIOLATION property=%s replay=%s\n", opt.prop.c_str(), ck.name, failcase, ms.c_str(), opt.prop.c_str(), path.c_str());
          violated = true; rc = 1; ++violations;
        } else printf("[%s/%s] case %ld failed once but not when replayed (%d/3): inconclusive\n", opt.prop.c_str(), ck.name, failcase, rep);
        if (rs < 3) for (int w = 0; w < W; ++w) { rewind(errs[w]); char b[2000]; size_t n = fread(b, 1, sizeof b - 1, errs[w]); b[n] = 0; if (n) printf("  worker %d stderr: %s\n", w, b); }
        if (rs < 3) st.labels["unreproducible"]++;
      }
    }
    for (int w = 0; w < W; ++w) { fclose(outs[w]); fclose(fails[w]); fclose(errs[w]); }
    munmap(sh, sizeof(Shared) * W);
    printf("[%s/%s] %ld cases, %zu distinct non-trivial, %ld discarded%s, %.1f s%s\n", opt.prop.c_str(), ck.name, st.evals, st.distinct.size(), st.disc, st.truncated ? " (stopped at time budget)" : "", now() - tc, violated ? " VIOLATED" : "");
    if (getenv("VT_LABELS")) for (auto &l : st.labels) printf("    %-40s %ld\n", l.first.c_str(), l.second);
    std::string lj = "{"; bool f1 = true; for (auto &l : st.labels) { if (!f1) lj += ", "; f1 = false; lj += jesc(l.first) + ": " + fmt("%ld", l.second); } lj += "}";
    if (!ev_checks.empty()) ev_checks += ",\n      ";
    ev_checks += fmt("{\"name\": \"%s\", \"evaluations\": %ld, \"distinct_nontrivial\": %zu, \"discarded\": %ld, \"stopped_at_time_budget\": %s, \"wall_s\": %.2f, \"rule\": %s, \"classes\": %s}",
                     ck.name, st.evals, st.distinct.size(), st.disc, st.truncated ? "true" : "false", now() - tc, jesc(ck.rule).c_str(), lj.c_str());
    all.evals += st.evals; tot_distinct += (long)st.distinct.size();
    rules += std::string(rules.empty() ? "" : " | ") + ck.name + ": " + ck.rule;
    for (size_t k = 0; k < st.samples.size() && k < 2; ++k) samples.push_back(std::string(ck.name) + ": " + st.samples[k].substr(0, 1500));
    if (violated) break;
  }
  for (auto &k : opt.known) printf("KNOWN-FINDING: property=%s %s%s%s\n", opt.prop.c_str(), k.c_str(), knownhit.count(k) ? ": " : "", knownhit.count(k) ? knownhit[k].substr(0, 300).c_str() : "");
  if (!opt.evidence.empty()) {
    FILE *f = fopen(opt.evidence.c_str(), "w"); if (!f) { perror("evidence"); return 3; }
    fprintf(f, "{\n  \"property\": \"%s\",\n  \"tier\": \"%s\",\n  \"seed\": %llu,\n  \"level\": \"exploration\",\n  \"coverage\": {\n    \"evaluations\": %ld,\n    \"distinct_nontrivial\": %ld,\n    \"rule\": %s,\n    \"samples\": [",
            opt.prop.c_str(), opt.tier.c_str(), (unsigned long long)opt.seed, all.evals, tot_distinct,
            jesc("Cases are decoded from a tape of random choices derived from VERIF_SEED; distinct = distinct tapes. Non-trivial, per sub-check: " + rules).c_str());
    for (size_t k = 0; k < samples.size(); ++k) fprintf(f, "%s\n      %s", k ? "," : "", jesc(samples[k]).c_str());
    fprintf(f, "\n    ],\n    \"sub_checks\": [\n      %s\n    ]\n  },\n  \"wall_s\": %.2f,\n  \"violations\": %ld\n}\n", ev_checks.c_str(), now() - t0, violations);
    fclose(f);
  }
  return rc;
}
}  // namespace vt
