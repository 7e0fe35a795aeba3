// running the command line programs in a scratch directory
#pragma once
#include "vt.h"
#include <dirent.h>
#include <ftw.h>
#include <sys/resource.h>
struct Scratch {   // removed with everything in it
  std::string d;
  Scratch() { char t[] = "/tmp/vt-prog-XXXXXX"; if (!mkdtemp(t)) abort(); d = t; }
  static int rm(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
  ~Scratch() { nftw(d.c_str(), rm, 16, FTW_DEPTH | FTW_PHYS); }
  std::string path(const std::string &n) const { return d + "/" + n; }
  void put(const std::string &n, const std::string &bytes) const { FILE *f = fopen(path(n).c_str(), "wb"); if (!f) abort(); fwrite(bytes.data(), 1, bytes.size(), f); fclose(f); }
  bool get(const std::string &n, std::string &out) const { out.clear(); FILE *f = fopen(path(n).c_str(), "rb"); if (!f) return false; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) out.append(b, k); fclose(f); return true; }
  std::set<std::string> list(const std::string &sub = "") const { std::set<std::string> s; DIR *q = opendir(path(sub).c_str()); if (!q) return s; while (dirent *e = readdir(q)) if (e->d_name[0] != '.' && e->d_type != DT_DIR) s.insert(sub.empty() ? e->d_name : sub + "/" + e->d_name); closedir(q); return s; }
};
struct RunOut { int code; bool crash; std::string err; };   // code: exit status
static inline RunOut runprog(const Scratch &s, const char *prog, const std::vector<std::string> &args) {
  std::vector<char *> av; av.push_back((char *)prog); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(NULL); std::string op = s.path(".out"), ep = s.path(".err"); pid_t pid = fork(); if (pid < 0) abort();
  if (!pid) { if (chdir(s.d.c_str())) _exit(126); int o = open(op.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(ep.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), i = open("/dev/null", O_RDONLY); dup2(i, 0); dup2(o, 1); dup2(e, 2); rlimit r{20, 20}; setrlimit(RLIMIT_CPU, &r); rlimit fs{64 << 20, 64 << 20}; setrlimit(RLIMIT_FSIZE, &fs); signal(SIGPIPE, SIG_DFL); execv(prog, av.data()); _exit(126); }
  int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) abort(); RunOut r; s.get(".err", r.err); r.crash = !WIFEXITED(st) || WEXITSTATUS(st) == 99 || r.err.find("ERROR: AddressSanitizer") != std::string::npos; r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); if (r.code == 126) abort(); return r;
}
// PGM image: pixels of 8 bits
struct Pgm { int w, h, maxv; bool ascii; std::vector<unsigned char> p; };
static inline std::string pgmbytes(const Pgm &g, bool comments = false) { std::string s = vt::fmt("P%d%s%d %d%s%d\n", g.ascii ? 2 : 5, comments ? "\n# a comment\n" : " ", g.w, g.h, comments ? "\n#x\n" : "\n", g.maxv); for (size_t i = 0; i < g.p.size(); ++i) if (g.ascii) s += vt::fmt("%d%c", g.p[i], (i + 1) % 13 ? ' ' : '\n'); else s += (char)g.p[i]; return s; }
// the numbers of a text file, one vector per line; false if something else is in it
static inline bool textrows(const std::string &s, std::vector<std::vector<double>> &rows) { rows.clear(); size_t a = 0; while (a < s.size()) { size_t e = s.find('\n', a); if (e == std::string::npos) e = s.size(); std::string l = s.substr(a, e - a); a = e + 1; std::vector<double> v; const char *q = l.c_str(); for (;;) { while (*q == ' ' || *q == '\t') ++q; if (!*q) break; char *z; double x = strtod(q, &z); if (z == q) return false; v.push_back(x); q = z; } if (!v.empty()) rows.push_back(v); } return true; }
static inline double bigdouble(const char *b) { unsigned char t[8]; for (int i = 0; i < 8; ++i) t[i] = (unsigned char)b[7 - i]; double x; memcpy(&x, t, 8); return x; }
static inline std::string bigbytes(double x) { unsigned char t[8]; memcpy(t, &x, 8); std::string s; for (int i = 7; i >= 0; --i) s += (char)t[i]; return s; }
