// S02: getopt_long against a reference parser (options first, operands kept in order behind them).
#include "vt.h"
#include "vl_all.h"
using std::string; using std::vector;
struct Ret { int ret; string arg; bool hasarg; int lidx, flag; int opt; bool err; };   // expected results
struct Opt { string name; int has; bool useflag; int val; };
static bool has(const string &s, size_t p, char ch) { return p < s.size() && s[p] == ch; }
static vector<Ret> model(const vector<string> &argv, const string &os, const vector<Opt> &lo, vector<size_t> &order, size_t &nopt) {
  vector<Ret> out; vector<size_t> opts, ops; size_t n = argv.size(), i = 1; bool colon = has(os, 0, ':'); string so = colon ? os.substr(1) : os;
  while (i < n) {
    const string &a = argv[i];
    if (a.size() < 2 || a[0] != '-') { ops.push_back(i++); continue; }
    opts.push_back(i++);
    if (a == "--") { break; }
    if (a[1] == '-') {
      string body = a.substr(2); size_t eq = body.find('='); string nm = body.substr(0, eq); int k = -1; for (size_t j = 0; j < lo.size(); ++j) if (lo[j].name == nm) { k = j; break; }
      if (k < 0) { out.push_back({'?', "", false, -1, -1, -1, true}); continue; }
      Ret r{lo[k].useflag ? 0 : lo[k].val, "", false, k, lo[k].useflag ? lo[k].val : -1, -1, false};
      if (lo[k].has && eq != string::npos) { r.arg = body.substr(eq + 1); r.hasarg = true; }
      else if (lo[k].has == required_argument) { if (i >= n) { r = {colon ? ':' : '?', "", false, -2, -1, -1, true}; out.push_back(r); continue; } r.arg = argv[i]; r.hasarg = true; opts.push_back(i++); }
      out.push_back(r); continue;
    }
    for (size_t p = 1; p < a.size(); ++p) { char ch = a[p]; size_t q = ch == ':' ? string::npos : so.find(ch);
      if (q == string::npos) { out.push_back({'?', "", false, -1, -1, (int)ch, true}); continue; }
      if (!has(so, q + 1, ':')) { out.push_back({(int)ch, "", false, -1, -1, (int)ch, false}); continue; }
      if (p + 1 < a.size()) { out.push_back({(int)ch, a.substr(p + 1), true, -1, -1, (int)ch, false}); break; }
      if (i >= n) { out.push_back({colon ? ':' : '?', "", false, -1, -1, (int)ch, true}); break; }
      out.push_back({(int)ch, argv[i], true, -1, -1, (int)ch, false}); opts.push_back(i++); break; }
  }
  while (i < n) ops.push_back(i++);
  nopt = opts.size(); order = {0}; order.insert(order.end(), opts.begin(), opts.end()); order.insert(order.end(), ops.begin(), ops.end()); return out;
}
static int flagvar;
VT_CHECK(getopt, 150000, 3000000, "at least two options returned") {
  int rounds = c.i(1, 3);
  for (int round = 0; round < rounds; ++round) {
    string os; if (c.chance(1, 4)) os = ":"; string pool = "abcxyA1"; int ns = c.small(0, 5); for (int k = 0; k < ns; ++k) { char ch = pool[c.i(0, pool.size() - 1)]; if (os.find(ch) != string::npos) continue; os += ch; if (c.chance(1, 3)) os += ':'; }
    static const vector<string> names = {"alpha", "al", "alphabet", "beta", "b", "x-y", "help"}; vector<Opt> lo; int nl = c.small(0, 4); for (int k = 0; k < nl; ++k) { const string &nm = c.pick(names); bool dup = false; for (auto &o : lo) dup |= o.name == nm; if (!dup) lo.push_back({nm, (int)c.i(0, 2), c.chance(1, 4), (int)(c.b() ? 1000 + k : 'a' + k)}); }
    vector<string> av = {"prog"}; int n = c.small(0, 8); string spool = os + "abcz:";
    auto word = [&]() { string s; int m = c.small(0, 4); for (int q = 0; q < m; ++q) s += "fo-=:"[c.i(0, 4)]; return s; };
    for (int k = 0; k < n; ++k) { string s; switch (c.i(0, 7)) {
      case 0: s = word(); if (s.size() && s[0] == '-') s[0] = 'w'; break;
      case 1: case 2: { s = "-"; int m = c.small(1, 4); for (int q = 0; q < m; ++q) s += spool[c.i(0, spool.size() - 1)]; if (s == "--") s = "-z"; break; }
      case 3: case 4: { bool known = lo.size() && !c.chance(1, 5); int w = known ? c.i(0, lo.size() - 1) : 0; string nm = known ? lo[w].name : c.pick(names); s = "--" + nm; bool noarg = false; for (auto &o : lo) if (o.name == nm && !o.has) noarg = true; if (!noarg && c.b()) s += "=" + word(); break; }
      case 5: s = c.chance(1, 4) ? "--" : "-"; break;
      case 6: s = word(); break;
      default: s = c.pick(names); }
      if (s.size() > 2 && s[0] == '-' && s[1] == '-') { string nm = s.substr(2, s.find('=') == string::npos ? string::npos : s.find('=') - 2); bool bad = false; for (auto &o : lo) if (o.name == nm && !o.has && s.find('=') != string::npos) bad = true; if (bad) s = "--" + nm; }   // a value for an option without argument is left unspecified
      av.push_back(s); }
    vector<size_t> order; size_t nopt; vector<Ret> ex = model(av, os, lo, order, nopt);
    string desc; for (auto &s : av) desc += "'" + s + "' "; string ld; for (auto &o : lo) ld += o.name + (o.has == 1 ? "=" : o.has == 2 ? "[=]" : "") + " "; c.note("optstring \"%s\" long {%s} argv %s\n", os.c_str(), ld.c_str(), desc.c_str());
    if (ex.size() > 1) c.nontrivial(); c.label("%zu results%s", std::min<size_t>(ex.size(), 4), nopt + 1 < av.size() ? ", with operands" : "");
    // exact copies
    int argc = av.size(); char **argv = (char **)malloc(sizeof(char *) * (argc + 1)); vector<char *> orig; for (int k = 0; k < argc; ++k) { argv[k] = (char *)malloc(av[k].size() + 1); memcpy(argv[k], av[k].c_str(), av[k].size() + 1); orig.push_back(argv[k]); } argv[argc] = NULL;
    char *osx = (char *)malloc(os.size() + 1); memcpy(osx, os.c_str(), os.size() + 1);
    option *lopts = (option *)calloc(lo.size() + 1, sizeof(option)); for (size_t k = 0; k < lo.size(); ++k) { lopts[k].name = lo[k].name.c_str(); lopts[k].has_arg = lo[k].has; lopts[k].flag = lo[k].useflag ? &flagvar : NULL; lopts[k].val = lo[k].val; }
    optind = 1; optreset = 1; opterr = c.b(); bool passidx = !c.chance(1, 8);
    char *msg = NULL; size_t msgn = 0; FILE *ms = open_memstream(&msg, &msgn), *old = stderr; string fail; size_t stopat = c.chance(1, 6) ? c.i(0, ex.size()) : ex.size() + 1;   // sometimes abandon the parse half way
    for (size_t k = 0; k <= ex.size() && k < stopat; ++k) {
      int li = -7; flagvar = -1; fflush(ms); size_t before = msgn; stderr = ms; int r = getopt_long(argc, argv, osx, lopts, passidx ? &li : NULL); fflush(ms); stderr = old; char b[300];
      if (k == ex.size()) { if (r != -1) { snprintf(b, sizeof b, "call %zu returned %d instead of end of options", k, r); fail = b; break; }
        if (optind != (int)nopt + 1) { snprintf(b, sizeof b, "optind is %d, the first operand is at %zu", optind, nopt + 1); fail = b; break; }
        for (int q = 0; q < argc; ++q) if (argv[q] != orig[order[q]]) { snprintf(b, sizeof b, "argv[%d] is not '%.40s' after parsing", q, av[order[q]].c_str()); fail = b; break; }
        if (argv[argc]) fail = "argv[argc] was overwritten"; break; }
      const Ret &e = ex[k];
      if (r != e.ret) { snprintf(b, sizeof b, "call %zu returned %d ('%c'), expected %d ('%c')", k, r, r > 31 && r < 127 ? r : ' ', e.ret, e.ret > 31 && e.ret < 127 ? e.ret : ' '); fail = b; break; }
      if (!e.err) { if (e.hasarg ? (!optarg || e.arg != optarg) : optarg != NULL) { snprintf(b, sizeof b, "call %zu: argument is '%.40s', expected %s%.40s", k, optarg ? optarg : "(none)", e.hasarg ? "" : "none", e.arg.c_str()); fail = b; break; }
        if (e.lidx >= 0 && passidx && li != e.lidx) { snprintf(b, sizeof b, "call %zu: long option index %d, expected %d", k, li, e.lidx); fail = b; break; }
        if (e.flag >= 0 && flagvar != e.flag) { snprintf(b, sizeof b, "call %zu: flag set to %d, expected %d", k, flagvar, e.flag); fail = b; break; } }
      if (e.opt >= 0 && optopt != e.opt) { snprintf(b, sizeof b, "call %zu: optopt is %d, expected %d", k, optopt, e.opt); fail = b; break; }
      bool wantmsg = e.err && opterr && !has(os, 0, ':'); if ((msgn != before) != wantmsg) { snprintf(b, sizeof b, "call %zu: error message %s", k, wantmsg ? "missing" : "printed although none is due"); fail = b; break; }
    }
    fclose(ms); free(msg); for (char *p : orig) free(p); free(argv); free(osx); free(lopts);
    if (fail.size()) c.fail("%s", fail.c_str());
  }
}
int main(int a, char **b) { return vt::vt_main(a, b); }
