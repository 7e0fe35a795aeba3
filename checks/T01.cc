// T01: the sift program against the library.
// VT-PROGRAMS: sift
#include "prog.h"
#include "feat.h"
#include "vl_all.h"
using std::string; using std::vector;
struct Rec { double f[4]; unsigned char d[128]; };
struct Opt { int O = -1, S = 3, omin = -1; double edge = -1, peak = -1, magnif = -1; };
static const char *prog() { const char *p = getenv("VT_PROG_SIFT"); if (!p) abort(); return p; }
static Pgm drawimg(vt::Ctx &c, int lo = 1, int hi = 56) { Pgm g; g.w = (int)c.i(lo, hi); g.h = (int)c.i(lo, hi); g.maxv = c.chance(1, 6) ? (int)c.i(1, 255) : 255; g.ascii = c.chance(1, 3); fvec p; int cls = genimg(c, p, g.w, g.h, 1.0, c.pick({1, 1, 0, 2, 7, 4, 5})); g.p.resize(p.size()); for (size_t i = 0; i < p.size(); ++i) { double v = p[i] * g.maxv + 0.5; g.p[i] = (unsigned char)(v < 0 ? 0 : v > g.maxv ? g.maxv : v); } c.note("%dx%d %s max %d %s; ", g.w, g.h, g.ascii ? "P2" : "P5", g.maxv, imclass(cls)); return g; }
static Opt drawopt(vt::Ctx &c, vector<string> &a) { Opt o; auto val = [&](const char *lg, const char *sh, string v) { if (sh && c.b()) { if (c.b()) a.push_back(string(sh) + v); else { a.push_back(sh); a.push_back(v); } } else if (c.b()) a.push_back(string(lg) + "=" + v); else { a.push_back(lg); a.push_back(v); } };
  auto num = [&](double x, double &out) { string s = vt::fmt("%g", x); out = atof(s.c_str()); return s; };
  if (c.chance(1, 2)) { o.O = (int)c.i(1, 4); val("--octaves", "-O", vt::fmt("%d", o.O)); } if (c.chance(1, 2)) { o.S = (int)c.i(1, 5); val("--levels", "-S", vt::fmt("%d", o.S)); } if (c.chance(1, 2)) { o.omin = (int)c.i(-1, 2); a.push_back(vt::fmt("--first-octave=%d", o.omin)); }
  if (c.chance(1, 3)) val("--edge-thresh", NULL, num(c.real(1, 20), o.edge)); if (c.chance(1, 2)) val("--peak-thresh", NULL, num(c.pick({0.0, 0.5, 2.0, 10.0}), o.peak)); if (c.chance(1, 3)) val("--magnif", NULL, num(c.real(1, 6), o.magnif)); return o; }
struct Filt { VlSiftFilt *f; vector<float> im; Filt(const Pgm &g, const Opt &o) : f(vl_sift_new(g.w, g.h, o.O, o.S, o.omin)), im(g.p.begin(), g.p.end()) { if (o.edge >= 0) vl_sift_set_edge_thresh(f, o.edge); if (o.peak >= 0) vl_sift_set_peak_thresh(f, o.peak); if (o.magnif >= 0) vl_sift_set_magnif(f, o.magnif); } ~Filt() { vl_sift_delete(f); } };
static void add(VlSiftFilt *f, vector<Rec> &out, VlSiftKeypoint const *k, double ang) { Rec r; r.f[0] = k->x; r.f[1] = k->y; r.f[2] = k->sigma; r.f[3] = ang; float d[128]; vl_sift_calc_keypoint_descriptor(f, d, k, ang); for (int i = 0; i < 128; ++i) { double x = 512.0 * d[i]; r.d[i] = (unsigned char)(x < 255 ? x : 255); } out.push_back(r); }
static vector<Rec> detect(const Pgm &g, const Opt &o) { Filt F(g, o); vector<Rec> out; for (int e = vl_sift_process_first_octave(F.f, F.im.data()); !e; e = vl_sift_process_next_octave(F.f)) { vl_sift_detect(F.f); for (int i = 0; i < vl_sift_get_nkeypoints(F.f); ++i) { double an[4]; auto *k = vl_sift_get_keypoints(F.f) + i; int n = vl_sift_calc_keypoint_orientations(F.f, an, k); for (int q = 0; q < n; ++q) add(F.f, out, k, an[q]); } } return out; }
static vector<Rec> describe(const Pgm &g, const Opt &o, const vector<std::array<double, 4>> &fr, bool orient) { Filt F(g, o); vector<Rec> out; for (int e = vl_sift_process_first_octave(F.f, F.im.data()); !e; e = vl_sift_process_next_octave(F.f)) for (auto &r : fr) { VlSiftKeypoint k; vl_sift_keypoint_init(F.f, &k, r[0], r[1], r[2]); if (k.o != vl_sift_get_octave_index(F.f)) continue; double an[4] = {r[3]}; int n = orient ? vl_sift_calc_keypoint_orientations(F.f, an, &k) : 1; for (int q = 0; q < n; ++q) add(F.f, out, &k, an[q]); } return out; }
// reads a written file: nf frame values and nd descriptor values per record
static bool parse(const string &s, bool bin, bool fr, bool ds, vector<Rec> &out, string &why) { out.clear(); size_t rl = (fr ? 32 : 0) + (ds ? 128 : 0); if (bin) { if (s.size() % rl) { why = vt::fmt("%zu bytes is no multiple of %zu", s.size(), rl); return false; } for (size_t a = 0; a < s.size(); a += rl) { Rec r; memset(&r, 0, sizeof r); if (fr) for (int k = 0; k < 4; ++k) r.f[k] = bigdouble(&s[a + 8 * k]); if (ds) memcpy(r.d, &s[a + (fr ? 32 : 0)], 128); out.push_back(r); } return true; }
  vector<vector<double>> rows; if (!textrows(s, rows)) { why = "not numbers"; return false; } for (auto &v : rows) { Rec r; memset(&r, 0, sizeof r); if (v.size() != (fr ? 4u : 0u) + (ds ? 128u : 0u)) { why = vt::fmt("a line with %zu values", v.size()); return false; } size_t q = 0; if (fr) for (int k = 0; k < 4; ++k) r.f[k] = v[q++]; if (ds) for (int k = 0; k < 128; ++k) { double x = v[q++]; if (x < 0 || x > 255 || x != floor(x)) { why = vt::fmt("descriptor value %g", x); return false; } r.d[k] = (unsigned char)x; } out.push_back(r); } return true; }
static bool close(const Rec &a, const Rec &b, bool bin, bool fr, bool ds) { if (fr) for (int k = 0; k < 4; ++k) if (!(fabs(a.f[k] - b.f[k]) <= (bin ? 0 : 1e-5 * fabs(b.f[k]) + 1e-12))) return false; return !ds || !memcmp(a.d, b.d, 128); }
static void compare(vt::Ctx &c, const char *what, const vector<Rec> &got, const vector<Rec> &want, bool bin, bool fr, bool ds) { VT_ASSERT(c, got.size() == want.size(), "%s has %zu records, the library gives %zu", what, got.size(), want.size()); vector<char> used(got.size(), 0); for (size_t i = 0; i < want.size(); ++i) { bool ok = false; for (size_t t = 0; t < got.size() && !ok; ++t) { size_t j = (i + t) % got.size(); if (!used[j] && close(got[j], want[i], bin, fr, ds)) { used[j] = 1; ok = true; } }
    if (!ok) { string m; if (fr) m = vt::fmt("file %g %g %g %g, library %g %g %g %g", got[i].f[0], got[i].f[1], got[i].f[2], got[i].f[3], want[i].f[0], want[i].f[1], want[i].f[2], want[i].f[3]); if (ds) for (int k = 0; k < 128; ++k) if (got[i].d[k] != want[i].d[k]) { m += vt::fmt(" [descriptor element %d file %d library %d]", k, got[i].d[k], want[i].d[k]); break; } c.fail("%s: record %zu of the library is not in the file (%s)", what, i, m.c_str()); } } }
static string join(const vector<string> &a) { string s; for (auto &x : a) s += x + " "; return s; }
struct Out { bool on, bin; string pat; };
static string subst(const string &p, const string &b) { string s; for (char ch : p) if (ch == '%') s += b; else s += ch; return s; }
static Out drawout(vt::Ctx &c, vector<string> &a, const char *opt, const char *def, bool on, bool canbin, int nfiles) { Out o{on, false, def}; if (!on) return o; string v; int pr = (int)c.i(0, 2); if (pr == 1) v = "ascii://"; if (pr == 2 && canbin) { v = "bin://"; o.bin = true; } if (c.b()) { string p = nfiles > 1 ? c.pick(vector<string>{"o/%.x", "%_f", "x%%y"}) : c.pick(vector<string>{"o/%.x", "fixed.out", "%_f", "x%%y"}); p += opt[1] == 'o' ? "O" : string(1, opt[2]); o.pat = p; v += p; }
  if (!strcmp(opt, "-o") || !strcmp(opt, "--output")) { if (v.empty()) v = "ascii://"; if (opt[1] == 'o' && c.b()) a.push_back("-o" + v); else { a.push_back(opt); a.push_back(v); } } else a.push_back(v.empty() ? opt : string(opt) + "=" + v); return o; }
VT_CHECK(outputs, 2000, 60000, "at least two keypoints written") {
  Scratch s; mkdir(s.path("o").c_str(), 0700); mkdir(s.path("in").c_str(), 0700); int nf = c.chance(1, 4) ? 2 : 1; vector<Pgm> im; for (int i = 0; i < nf; ++i) { im.push_back(drawimg(c)); s.put(vt::fmt("in/im%d.v1.pgm", i), pgmbytes(im[i], c.chance(1, 4))); }
  vector<string> a; Opt o = drawopt(c, a); bool w[4]; for (bool &x : w) x = c.b(); Out of = drawout(c, a, c.b() ? "-o" : "--output", "%.sift", w[0], true, nf), ff = drawout(c, a, "--frames", "%.frame", w[1], true, nf), df = drawout(c, a, "--descriptors", "%.descr", w[2], true, nf), mf = drawout(c, a, "--meta", "%.meta", w[3], false, nf); Out gf{false, true, "%.pgm"}; if (c.chance(1, 3)) gf = drawout(c, a, "--gss", "%.pgm", true, false, 2); if (c.chance(1, 6)) a.push_back(c.b() ? "-v" : "-vv"); if (!of.on && !ff.on && !df.on) of.on = true; for (int i = 0; i < nf; ++i) { string p = vt::fmt("in/im%d.v1.pgm", i); if (c.chance(1, 4)) a.insert(a.begin(), p), std::swap(im[0], im[i]); else a.push_back(p); }
  // operands keep their order, so recompute which file is which from the arguments
  c.note("sift %s", join(a).c_str()); RunOut r = runprog(s, prog(), a); VT_ASSERT(c, !r.crash && r.code == 0, "sift %s exits with %d: %.300s", join(a).c_str(), r.code, r.err.c_str());
  std::set<string> want; size_t total = 0; string b;
  for (auto &arg : a) if (arg.compare(0, 5, "in/im") == 0) { int i = arg[5] - '0'; Pgm g; string bytes; s.get(arg, bytes); FILE *f = fopen(s.path(arg).c_str(), "rb"); VlPgmImage pim; if (vl_pgm_extract_head(f, &pim)) abort(); g.w = (int)pim.width; g.h = (int)pim.height; g.maxv = (int)pim.max_value; g.p.resize((size_t)g.w * g.h); if (vl_pgm_extract_data(f, &pim, g.p.data())) abort(); fclose(f);
      string base = vt::fmt("im%d.v1", i); vector<Rec> ref = detect(g, o), got; total += ref.size(); string why;
      struct { Out *o; bool fr, ds; const char *n; } L[] = {{&of, true, true, "aggregate file"}, {&ff, true, false, "frames file"}, {&df, false, true, "descriptors file"}};
      for (auto &l : L) if (l.o->on) { string n = subst(l.o->pat, base); want.insert(n); VT_ASSERT(c, s.get(n, b), "%s %s was not written", l.n, n.c_str()); VT_ASSERT(c, parse(b, l.o->bin, l.fr, l.ds, got, why), "%s %s is malformed: %s", l.n, n.c_str(), why.c_str()); compare(c, l.n, got, ref, l.o->bin, l.fr, l.ds);
          for (size_t k = 0; k < ref.size(); ++k) VT_ASSERT(c, close(got[k], ref[k], l.o->bin, l.fr, l.ds), "%s: record %zu is out of order", l.n, k); }
      if (mf.on) { string n = subst(mf.pat, base); want.insert(n); VT_ASSERT(c, s.get(n, b), "meta file %s was not written", n.c_str()); VT_ASSERT(c, b.find("'" + arg + "'") != string::npos && (!df.on || b.find("'" + subst(df.pat, base) + "'") != string::npos) && (!ff.on || b.find("'" + subst(ff.pat, base) + "'") != string::npos), "meta file does not name the input and outputs: %s", b.c_str()); }
      if (gf.on) { Filt F(g, o); for (int e = vl_sift_process_first_octave(F.f, F.im.data()); !e; e = vl_sift_process_next_octave(F.f)) for (int l = 0; l < F.f->S; ++l) { string n = subst(gf.pat, base + vt::fmt("_%02d_%03d", vl_sift_get_octave_index(F.f), l)); want.insert(n); FILE *q = fopen(s.path(n).c_str(), "rb"); VT_ASSERT(c, q, "scale space file %s was not written", n.c_str()); VlPgmImage p2; int ow = vl_sift_get_octave_width(F.f), oh = vl_sift_get_octave_height(F.f); if (ow < 1 || oh < 1) { fclose(q); continue; } int bad = vl_pgm_extract_head(q, &p2); vector<unsigned char> px((size_t)ow * oh); if (!bad) { if ((int)p2.width != ow || (int)p2.height != oh || p2.max_value != 255) bad = 2; else bad = vl_pgm_extract_data(q, &p2, px.data()); } fclose(q); VT_ASSERT(c, !bad, "scale space file %s is not a %dx%d image", n.c_str(), ow, oh); float *lv = vl_sift_get_octave(F.f, l); for (size_t k = 0; k < px.size(); ++k) VT_ASSERT(c, fabs(px[k] - lv[k]) <= 1.0001, "scale space file %s pixel %zu is %d, the library's is %g", n.c_str(), k, px[k], (double)lv[k]); } } }
  std::set<string> have = s.list(); for (auto &x : s.list("o")) have.insert(x); for (auto &x : have) VT_ASSERT(c, want.count(x), "unexpected output file %s", x.c_str()); if (total > 1) c.nontrivial(); c.label("%d file(s)%s", nf, total ? "" : ", no keypoints");
}
VT_CHECK(read_frames, 1500, 40000, "at least two frames read") {
  Scratch s; Pgm g = drawimg(c, 4, 56); s.put("im.pgm", pgmbytes(g)); vector<string> a; Opt o = drawopt(c, a); bool bin = c.b(), orient = c.chance(1, 4); vector<std::array<double, 4>> fr; string bytes;
  if (c.b()) { vector<string> a1 = a; a1.push_back(string("--frames=") + (bin ? "bin://" : "ascii://")); a1.push_back("im.pgm"); if (c.chance(1, 3)) { a1.push_back("--descriptors=bin://first.d"); } c.note("frames of the program itself; "); RunOut r = runprog(s, prog(), a1); VT_ASSERT(c, !r.crash && r.code == 0, "sift %s exits with %d: %.300s", join(a1).c_str(), r.code, r.err.c_str()); VT_ASSERT(c, s.get("im.frame", bytes), "no frames file"); vector<Rec> got; string why; VT_ASSERT(c, parse(bytes, bin, true, false, got, why), "frames file malformed: %s", why.c_str()); for (auto &q : got) fr.push_back({q.f[0], q.f[1], q.f[2], q.f[3]}); c.label("own frames, %s", bin ? "binary" : "text"); }
  else { int n = (int)c.small(0, 40); vt::Stream st = c.stream(); bool dup = c.chance(1, 4); double sg = exp(st.real(0, 2)); for (int i = 0; i < n; ++i) { std::array<double, 4> q = {st.real(-2, g.w + 1), st.real(-2, g.h + 1), dup && st.below(2) ? sg : exp(st.real(-1, 3.5)), st.real(-4, 7)}; if (!bin) for (double &x : q) { string t = vt::fmt("%.9g", x); x = atof(t.c_str()); } fr.push_back(q); } for (auto &q : fr) { for (double x : q) bytes += bin ? bigbytes(x) : vt::fmt("%.9g%s", x, st.below(5) ? " " : "  "); if (!bin) bytes += st.below(6) ? "\n" : "\n\n"; } if (!bin && bytes.size() && c.b()) while (bytes.size() && (bytes.back() == '\n' || bytes.back() == ' ')) bytes.pop_back(); s.put("im.frame", bytes); c.label("drawn frames, %s", bin ? "binary" : "text"); }
  if (fr.empty()) c.label("no frames"); if (fr.size() > 1) c.nontrivial(); a.push_back(string("--read-frames=") + (bin ? "bin://" : "ascii://") + (c.b() ? "%.frame" : "")); if (orient) a.push_back("--orientations"); bool ob = c.b(); a.push_back(string("-o") + (ob ? "bin://" : "") + "out.s"); a.push_back(string("--frames=") + (ob ? "bin://" : "") + "out.f"); a.push_back("--descriptors=bin://out.d"); a.push_back("im.pgm"); c.note("%zu frames %s; sift %s", fr.size(), bin ? "binary" : "text", join(a).c_str());
  RunOut r = runprog(s, prog(), a); VT_ASSERT(c, !r.crash && r.code == 0, "sift %s exits with %d: %.300s", join(a).c_str(), r.code, r.err.c_str()); vector<Rec> ref = describe(g, o, fr, orient), got; string b, why; if (!orient) VT_ASSERT(c, ref.size() == fr.size(), "library describes %zu of %zu frames", ref.size(), fr.size());
  VT_ASSERT(c, s.get("out.s", b) && parse(b, ob, true, true, got, why), "aggregate file missing or malformed: %s", why.c_str()); compare(c, "aggregate file", got, ref, ob, true, true); VT_ASSERT(c, s.get("out.f", b) && parse(b, ob, true, false, got, why), "frames file missing or malformed: %s", why.c_str()); compare(c, "frames file", got, ref, ob, true, false); VT_ASSERT(c, s.get("out.d", b) && parse(b, true, false, true, got, why), "descriptors file missing or malformed: %s", why.c_str()); compare(c, "descriptors file", got, ref, true, false, true);
  if (s.get("first.d", b) && !orient && bin) {   // descriptors computed at detection and from the frames read back: the same wherever the library places the frame in the octave of its detection
    vector<Rec> first, second = describe(g, o, fr, false), det = detect(g, o); VT_ASSERT(c, parse(b, true, false, true, first, why) && first.size() == det.size(), "descriptors of the first run: %zu records, library %zu", first.size(), det.size()); compare(c, "descriptors of the first run", first, det, true, false, true); c.label("round trip"); }
}
VT_CHECK(malformed, 4000, 100000, "input is malformed") {
  Scratch s; Pgm g = drawimg(c, 1, 12); string im = pgmbytes(g, c.chance(1, 4)), ex; vector<string> a; bool bad = false, any = false; string what; int kind = (int)c.i(0, 2);
  if (kind == 0) { int nm = (int)c.i(1, 3); for (int k = 0; k < nm; ++k) { size_t h = std::min<size_t>(im.size(), 16); switch (c.i(0, 6)) { case 0: im.resize(c.i(0, im.size())); break; case 1: if (h) im[c.i(0, h - 1)] = (char)c.i(0, 255); break; case 2: if (h) im.erase(c.i(0, h - 1), c.i(1, 3)); break; case 3: if (h) im.insert(c.i(0, h - 1), c.pick(vector<string>{" ", "9", "-", "#", "\n", "0", "99999", "x"})); break; case 4: { auto p = im.find(vt::fmt("%d\n", g.maxv)); if (p != string::npos) im.replace(p, vt::fmt("%d", g.maxv).size(), c.pick(vector<string>{"0", "256", "65535", "65536", "-3", "x", "99999999999"})); break; } case 5: { auto p = im.find(vt::fmt("%d", g.w)); if (p != string::npos) im.replace(p, vt::fmt("%d", g.w).size(), c.pick(vector<string>{"0", "-1", "1000000", "99999999999", "2147483647", "abc"})); break; } default: if (c.b()) im.clear(); } }
    s.put("im.pgm", im); FILE *f = fopen(s.path("im.pgm").c_str(), "rb"); VlPgmImage p; bad = vl_pgm_extract_head(f, &p) != 0; if (!bad) { double need = (double)p.width * p.height * vl_pgm_get_bpp(&p); if (need > 1e6) bad = true; else { vector<unsigned char> px((size_t)need); bad = vl_pgm_extract_data(f, &p, px.data()) != 0; if (vl_pgm_get_bpp(&p) != 1) bad = true; if (!bad && (p.width > 400 || p.height > 400)) any = true; } } fclose(f); if (c.chance(1, 10)) { remove(s.path("im.pgm").c_str()); bad = true; any = false; } what = "image \"" + im.substr(0, 30) + "\""; a.push_back("im.pgm"); }
  else if (kind == 1) { s.put("im.pgm", im); bool bin = c.b(); int n = (int)c.small(0, 5); string fb; for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) { double x = c.real(0.5, 9); fb += bin ? bigbytes(x) : vt::fmt("%.5g ", x); } size_t vals = 4 * n; switch (c.i(0, 4)) { case 0: { int cut = (int)c.i(0, 3); int drop = std::min<int>(cut, (int)vals); if (bin) { int extra = drop < (int)vals && c.b() ? (int)c.i(1, 7) : 0; fb.resize(fb.size() - 8 * drop - extra); bad = fb.size() % 32 != 0; } else { for (int k = 0; k < drop; ++k) { fb.pop_back(); fb.resize(fb.rfind(' ') == string::npos ? 0 : fb.rfind(' ') + 1); } bad = drop % 4 != 0; } break; } case 1: if (!bin) { fb.insert(fb.size() ? fb.find(' ') + 1 : 0, c.pick(vector<string>{"abc ", "# ", ", "})); bad = true; } break; case 2: remove(s.path("fr").c_str()); fb.clear(); bad = true; what = "no frames file"; break; default: break; } if (what.empty()) s.put("fr", fb); what += bin ? vt::fmt("binary frames of %zu bytes", fb.size()) : "frames \"" + fb + "\""; a = {string("--read-frames=") + (bin ? "bin://" : "") + "fr", "im.pgm"}; }
  else { s.put("im.pgm", im); static const vector<string> B = {"--frobnicate", "-x", "--octaves=abc", "--octaves=", "--first-octave=", "--magnif=", "-Oz", "-S-1", "--levels=-2", "--octaves=-1", "--edge-thresh=0.5", "--edge-thresh=q", "--peak-thresh=-1", "--peak-thresh=x", "--magnif=0.2", "--magnif=z", "--first-octave=x", "--frames=foo://x", "--meta=bin://m", "--output=bar://", "--gss=zip://x", "--read-frames=ftp://x", "--frames=none/such/dir", "--descriptors=none/d", "-onone/o", "--meta=none/m", "--octaves", "--gss=none/x"}; static const vector<string> G = {"--octaves=2", "-S2", "-v", "--frames", "--descriptors", "--meta", "--gss", "--edge-thresh=3", "-O1"}; int n = (int)c.i(1, 3), at = (int)c.i(0, n); for (int k = 0; k < n; ++k) { if (k == at) { string q = c.pick(B); a.push_back(q); bad = true; } else a.push_back(c.pick(G)); } if (bad && a.back() == "--octaves") a.push_back("x"); a.push_back("im.pgm"); }
  c.note("%s; sift %s", what.c_str(), join(a).c_str()); RunOut r = runprog(s, prog(), a); if (bad) c.nontrivial(); c.label("%s %s", kind == 0 ? "image" : kind == 1 ? "frames" : "options", bad ? "malformed" : "good"); VT_ASSERT(c, !r.crash, "sift %s on %s crashed (%d): %.600s", join(a).c_str(), what.c_str(), r.code, r.err.c_str()); if (!any) VT_ASSERT(c, (r.code != 0) == bad, "sift %s on %s exits with %d: %.300s", join(a).c_str(), what.c_str(), r.code, r.err.c_str());
}
int main(int a, char **b) { return vt::vt_main(a, b); }
