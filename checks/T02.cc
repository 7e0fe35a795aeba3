// T02: the mser program against the library.
// VT-PROGRAMS: mser
#include "prog.h"
#include "feat.h"
#include "vl_all.h"
using std::string; using std::vector;
struct Opt { double delta = -1, maxa = -1, mina = -1, maxv = -1, mind = -1; int bright = 1, dark = 1; };
static const char *prog() { const char *p = getenv("VT_PROG_MSER"); if (!p) abort(); return p; }
static string join(const vector<string> &a) { string s; for (auto &x : a) s += x + " "; return s; }
static Pgm drawimg(vt::Ctx &c, int lo, int hi) { Pgm g; g.w = (int)c.i(lo, hi); g.h = (int)c.i(lo, hi); g.maxv = c.chance(1, 6) ? (int)c.i(1, 255) : 255; g.ascii = c.chance(1, 3); fvec p; int cls = genimg(c, p, g.w, g.h, 1.0, c.pick({1, 1, 0, 2, 7, 4, 3, 5})); g.p.resize(p.size()); for (size_t i = 0; i < p.size(); ++i) { double v = p[i] * g.maxv + 0.5; g.p[i] = (unsigned char)(v < 0 ? 0 : v > g.maxv ? g.maxv : v); } c.note("%dx%d %s max %d %s; ", g.w, g.h, g.ascii ? "P2" : "P5", g.maxv, imclass(cls)); return g; }
static Opt drawopt(vt::Ctx &c, vector<string> &a) { Opt o; auto val = [&](const char *lg, double x, double &out) { string v = vt::fmt("%g", x); out = atof(v.c_str()); if (!strcmp(lg, "--delta") && c.b()) { if (c.b()) a.push_back("-d" + v); else { a.push_back("-d"); a.push_back(v); } } else if (c.b()) a.push_back(string(lg) + "=" + v); else { a.push_back(lg); a.push_back(v); } };
  if (c.chance(2, 3)) val("--delta", (double)c.pick({1, 2, 5, 10, 30, 60, 255}), o.delta); if (c.chance(1, 2)) val("--max-area", c.pick({0.75, 0.3, 0.9, 1.0, 0.05}), o.maxa); if (c.chance(1, 2)) val("--min-area", c.pick({0.0, 0.01, 0.1, 0.03}), o.mina); if (c.chance(1, 2)) val("--max-variation", c.pick({0.25, 0.5, 1.0, 3.0, 0.1}), o.maxv); if (c.chance(1, 2)) val("--min-diversity", c.pick({0.0, 0.2, 0.5, 0.8, 1.0}), o.mind); double t; if (c.chance(1, 4)) { val("--bright-on-dark", c.b(), t); o.bright = (int)t; } if (c.chance(1, 4)) { val("--dark-on-bright", c.b(), t); o.dark = (int)t; } return o; }
struct Res { vector<long> seeds; vector<std::array<double, 5>> ell; };
static void lib(const Pgm &g, const Opt &o, bool inv, Res &r) { int dims[2] = {g.w, g.h}; VlMserFilt *f = vl_mser_new(2, dims); if (o.delta >= 0) vl_mser_set_delta(f, (vl_mser_pix)o.delta); if (o.maxa >= 0) vl_mser_set_max_area(f, o.maxa); if (o.mina >= 0) vl_mser_set_min_area(f, o.mina); if (o.maxv >= 0) vl_mser_set_max_variation(f, o.maxv); if (o.mind >= 0) vl_mser_set_min_diversity(f, o.mind); vector<unsigned char> p = g.p; if (inv) for (auto &x : p) x = 255 - x; vl_mser_process(f, p.data()); int n = vl_mser_get_regions_num(f); for (int i = 0; i < n; ++i) r.seeds.push_back((inv ? -1L : 1L) * (long)vl_mser_get_regions(f)[i]); vl_mser_ell_fit(f); for (int i = 0; i < (int)vl_mser_get_ell_num(f); ++i) { std::array<double, 5> e; for (int k = 0; k < 5; ++k) e[k] = vl_mser_get_ell(f)[5 * i + k]; r.ell.push_back(e); } vl_mser_delete(f); }
static string subst(const string &p, const string &b) { string s; for (char ch : p) if (ch == '%') s += b; else s += ch; return s; }
struct Out { bool on; string pat; };
static Out drawout(vt::Ctx &c, vector<string> &a, const char *opt, const char *def, bool on, int nf) { Out o{on, def}; if (!on) return o; string v; if (c.chance(1, 3)) v = "ascii://"; if (c.b()) { string p = nf > 1 ? c.pick(vector<string>{"o/%.x", "%_f"}) : c.pick(vector<string>{"o/%.x", "fixed", "%_f"}); p += opt[2]; o.pat = p; v += p; } a.push_back(v.empty() ? opt : string(opt) + "=" + v); return o; }
VT_CHECK(outputs, 3000, 80000, "at least two regions written") {
  Scratch s; mkdir(s.path("o").c_str(), 0700); mkdir(s.path("in").c_str(), 0700); int nf = c.chance(1, 4) ? 2 : 1; vector<Pgm> im; for (int i = 0; i < nf; ++i) { im.push_back(drawimg(c, 1, 24)); s.put(vt::fmt("in/im%d.v1.pgm", i), pgmbytes(im[i], c.chance(1, 4))); }
  vector<string> a; Opt o = drawopt(c, a); bool w0 = c.b(), w1 = c.b(), w2 = c.b(); Out sf = drawout(c, a, "--seeds", "%.mser", w0, nf), ff = drawout(c, a, "--frames", "%.frame", w1, nf), mf = drawout(c, a, "--meta", "%.meta", w2, nf); if (c.chance(1, 6)) a.push_back(c.b() ? "-v" : "-vv"); if (!sf.on && !ff.on) ff.on = true; for (int i = 0; i < nf; ++i) { string p = vt::fmt("in/im%d.v1.pgm", i); if (c.chance(1, 4)) a.insert(a.begin(), p); else a.push_back(p); }
  c.note("mser %s", join(a).c_str()); RunOut r = runprog(s, prog(), a); VT_ASSERT(c, !r.crash && r.code == 0, "mser %s exits with %d: %.300s", join(a).c_str(), r.code, r.err.c_str()); std::set<string> want; size_t total = 0; string b;
  for (int i = 0; i < nf; ++i) { string base = vt::fmt("im%d.v1", i); Res ref; if (o.dark) lib(im[i], o, false, ref); if (o.bright) lib(im[i], o, true, ref); total += ref.seeds.size(); vector<vector<double>> rows;
    if (sf.on) { string n = subst(sf.pat, base); want.insert(n); VT_ASSERT(c, s.get(n, b) && textrows(b, rows), "seeds file %s missing or malformed", n.c_str()); vector<double> v; for (auto &q : rows) v.insert(v.end(), q.begin(), q.end()); VT_ASSERT(c, v.size() == ref.seeds.size(), "seeds file %s has %zu regions, the library finds %zu", n.c_str(), v.size(), ref.seeds.size()); for (size_t k = 0; k < v.size(); ++k) VT_ASSERT(c, v[k] == ref.seeds[k], "seeds file %s: region %zu is %g, the library's is %ld", n.c_str(), k, v[k], ref.seeds[k]); }
    if (ff.on) { string n = subst(ff.pat, base); want.insert(n); VT_ASSERT(c, s.get(n, b) && textrows(b, rows), "frames file %s missing or malformed", n.c_str()); VT_ASSERT(c, rows.size() == ref.ell.size(), "frames file %s has %zu ellipsoids, the library fits %zu", n.c_str(), rows.size(), ref.ell.size()); for (size_t k = 0; k < rows.size(); ++k) { VT_ASSERT(c, rows[k].size() == 5, "frames file %s: %zu values in a line", n.c_str(), rows[k].size()); for (int q = 0; q < 5; ++q) VT_ASSERT(c, fabs(rows[k][q] - ref.ell[k][q]) <= 1e-6 + 1e-6 * fabs(ref.ell[k][q]), "frames file %s: ellipsoid %zu component %d is %g, the library's is %g", n.c_str(), k, q, rows[k][q], ref.ell[k][q]); } }
    if (mf.on) { string n = subst(mf.pat, base); want.insert(n); VT_ASSERT(c, s.get(n, b), "meta file %s was not written", n.c_str()); VT_ASSERT(c, b.find("'in/" + base + ".pgm'") != string::npos && (!sf.on || b.find("'" + subst(sf.pat, base) + "'") != string::npos) && (!ff.on || b.find("'" + subst(ff.pat, base) + "'") != string::npos), "meta file does not name the input and outputs: %s", b.c_str()); } }
  std::set<string> have = s.list(); for (auto &x : s.list("o")) have.insert(x); for (auto &x : have) VT_ASSERT(c, want.count(x), "unexpected output file %s", x.c_str()); if (total > 1) c.nontrivial(); c.label("%d file(s), %s%s%s", nf, o.dark ? "dark " : "", o.bright ? "bright" : "", total ? "" : ", no regions");
}
VT_CHECK(malformed, 4000, 100000, "input is malformed") {
  Scratch s; Pgm g = drawimg(c, 1, 12); string im = pgmbytes(g, c.chance(1, 4)); vector<string> a; bool bad = false, any = false; string what;
  if (c.b()) { int nm = (int)c.i(1, 3); for (int k = 0; k < nm; ++k) { size_t h = std::min<size_t>(im.size(), 16); switch (c.i(0, 6)) { case 0: im.resize(c.i(0, im.size())); break; case 1: if (h) im[c.i(0, h - 1)] = (char)c.i(0, 255); break; case 2: if (h) im.erase(c.i(0, h - 1), c.i(1, 3)); break; case 3: if (h) im.insert(c.i(0, h - 1), c.pick(vector<string>{" ", "9", "-", "#", "\n", "0", "99999", "x"})); break; case 4: { auto p = im.find(vt::fmt("%d\n", g.maxv)); if (p != string::npos) im.replace(p, vt::fmt("%d", g.maxv).size(), c.pick(vector<string>{"0", "256", "65535", "65536", "-3", "x", "99999999999"})); break; } case 5: { auto p = im.find(vt::fmt("%d", g.w)); if (p != string::npos) im.replace(p, vt::fmt("%d", g.w).size(), c.pick(vector<string>{"0", "-1", "1000000", "99999999999", "2147483647", "abc"})); break; } default: if (c.b()) im.clear(); } }
    s.put("im.pgm", im); FILE *f = fopen(s.path("im.pgm").c_str(), "rb"); VlPgmImage p; bad = vl_pgm_extract_head(f, &p) != 0; if (!bad) { double need = (double)p.width * p.height * vl_pgm_get_bpp(&p); if (need > 1e6) bad = true; else { vector<unsigned char> px((size_t)need); bad = vl_pgm_extract_data(f, &p, px.data()) != 0; if (vl_pgm_get_bpp(&p) != 1) bad = true; } } fclose(f); if (c.chance(1, 10)) { remove(s.path("im.pgm").c_str()); bad = true; } what = "image \"" + im.substr(0, 30) + "\""; a.push_back("im.pgm"); }
  else { s.put("im.pgm", im); static const vector<string> B = {"--frobnicate", "-x", "--delta=abc", "-dz", "-d-1", "--delta=-2", "--delta=300", "--delta=", "--max-area=-1", "--max-area=1.5", "--max-area=x", "--min-area=-1", "--min-area=2", "--max-variation=-0.5", "--max-variation=q", "--min-diversity=2", "--min-diversity=-1", "--bright-on-dark=2", "--dark-on-bright=-1", "--bright-on-dark=x", "--frames=foo://x", "--meta=bin://m", "--seeds=zip://x", "--frames=none/f", "--seeds=none/s", "--meta=none/m", "--delta"}; static const vector<string> G = {"--delta=2", "-d5", "-v", "--frames", "--seeds", "--meta", "--max-area=0.5", "--min-area=0", "--bright-on-dark=0"}; int n = (int)c.i(1, 3), at = (int)c.i(0, n); for (int k = 0; k < n; ++k) { if (k == at) { a.push_back(c.pick(B)); bad = true; } else a.push_back(c.pick(G)); } if (bad && a.back() == "--delta") a.push_back("x"); a.push_back("im.pgm"); }
  c.note("%s; mser %s", what.c_str(), join(a).c_str()); RunOut r = runprog(s, prog(), a); if (bad) c.nontrivial(); c.label("%s %s", what.size() ? "image" : "options", bad ? "malformed" : "good"); VT_ASSERT(c, !r.crash, "mser %s on %s crashed (%d): %.600s", join(a).c_str(), what.c_str(), r.code, r.err.c_str()); VT_ASSERT(c, (r.code != 0) == bad, "mser %s on %s exits with %d: %.300s", join(a).c_str(), what.c_str(), r.code, r.err.c_str());
}
int main(int a, char **b) { return vt::vt_main(a, b); }
