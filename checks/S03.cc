// S03: PGM reading and writing against a reference parser; structured mutation of headers and data.
#include "vt.h"
#include "vl_all.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
using std::string; using std::vector;
static std::set<void *> blocks; static bool badfree;
static void *m(size_t n) { void *p = malloc(n); if (p) { memset(p, 0xcb, std::min<size_t>(n, 1 << 16)); blocks.insert(p); } return p; }
static void f(void *p) { if (p && !blocks.erase(p)) { badfree = true; return; } free(p); }
static void *r(void *p, size_t n) { if (p) blocks.erase(p); p = realloc(p, n); if (p) blocks.insert(p); return p; }
static void *ca(size_t n, size_t s) { void *p = calloc(n, s); if (p) blocks.insert(p); return p; }
static int openfds() { int n = 0; for (int i = 0; i < 128; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }
struct MemFile { int fd; string path; MemFile(const string &data) { fd = memfd_create("pgm", 0); if (write(fd, data.data(), data.size()) != (ssize_t)data.size()) abort(); char b[64]; snprintf(b, sizeof b, "/proc/self/fd/%d", fd); path = b; }
  string content() { string s; lseek(fd, 0, SEEK_SET); char b[4096]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k); return s; } ~MemFile() { close(fd); } };
struct Ref { int ok; bool fuzzy; size_t w, h, mx; bool raw; vector<unsigned> px; };   // ok: 1 well formed, 0 must be rejected, -1 unspecified (overflowing or signed numbers)
static Ref parse(const string &s) {
  Ref R{0, false, 0, 0, 0, false, {}}; size_t p = 2; if (s.size() < 2 || s[0] != 'P' || (s[1] != '2' && s[1] != '5')) return R; R.raw = s[1] == '5';
  auto blank = [](char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; }; bool fuzzy = false;
  auto blanks = [&]() { size_t q = p; while (p < s.size()) { if (blank(s[p])) ++p; else if (s[p] == '#') { while (p < s.size() && s[p] != '\n') ++p; if (p < s.size()) ++p; } else break; } return p > q; };
  auto num = [&](long &v) { size_t q = p; if (p < s.size() && (s[p] == '+' || s[p] == '\v' || s[p] == '\f')) fuzzy = true; bool neg = p < s.size() && s[p] == '-'; if (neg) ++p; size_t d = p; v = 0; while (p < s.size() && isdigit((unsigned char)s[p])) { if (p - d < 12) v = v * 10 + (s[p] - '0'); ++p; } if (p - d > 9) fuzzy = true; if (neg) v = -v; return p > d && q < p; };
  long w, h, mx; if (!blanks() || !num(w)) { if (fuzzy) R.ok = -1; return R; } if (!blanks() || !num(h)) { if (fuzzy) R.ok = -1; return R; } if (!blanks() || !num(mx)) { if (fuzzy) R.ok = -1; return R; }
  if (fuzzy) { R.ok = -1; return R; } if (p >= s.size() || !blank(s[p])) return R; ++p; if (w < 1 || h < 1 || mx < 1 || mx > 65535) return R;
  R.w = w; R.h = h; R.mx = mx; size_t n = R.w * R.h, bpp = mx > 255 ? 2 : 1;
  if (R.raw) { if ((s.size() - p) / bpp < n) return R; for (size_t i = 0; i < n; ++i) R.px.push_back(bpp == 1 ? (unsigned char)s[p + i] : ((unsigned char)s[p + 2 * i] << 8) | (unsigned char)s[p + 2 * i + 1]); }
  else for (size_t i = 0; i < n; ++i) { while (p < s.size() && isspace((unsigned char)s[p])) ++p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) { R.ok = -1; return R; } size_t d = p; unsigned long v = 0; while (p < s.size() && isdigit((unsigned char)s[p])) { if (p - d < 12) v = v * 10 + (s[p] - '0'); ++p; } if (p == d) return R; if (p - d > 9 || v > R.mx) { R.fuzzy = true; } R.px.push_back(v); }
  R.ok = 1; return R;
}
static string show(const string &s) { string o; for (unsigned char ch : s.substr(0, 80)) { char b[8]; if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\x%02x", ch); o += b; } else o += ch; } return o; }
static void read_and_compare(vt::Ctx &c, const string &file) {
  static bool init = (vl_set_alloc_func(m, r, ca, f), true); (void)init;
  Ref R = parse(file); c.note("file \"%s\" (%zu bytes)\n", show(file).c_str(), file.size()); c.label(R.ok == 1 ? "well formed" : R.ok == 0 ? "malformed" : "unspecified"); if (R.ok < 0) return;
  size_t nb = blocks.size(); int fds = openfds(); badfree = false;
  { // stream interface
    string copy = file; FILE *in = copy.empty() ? fopen("/dev/null", "rb") : fmemopen(&copy[0], copy.size(), "rb"); VlPgmImage im; memset(&im, 0xcb, sizeof im); int e = vl_pgm_extract_head(in, &im); string fail; char b[200];
    if (e) { if (e != VL_ERR_PGM_INV_HEAD && e != VL_ERR_PGM_INV_META) fail = "header error code is not documented"; if (R.ok == 1) fail = "a well-formed header was rejected"; }
    else { size_t bpp = vl_pgm_get_bpp(&im), n = vl_pgm_get_npixels(&im);
      if (im.width < 1 || im.height < 1 || im.max_value < 1 || im.max_value > 65535) fail = "an invalid size or maximum value was accepted"; else if (R.w && (im.width != R.w || im.height != R.h || im.max_value != R.mx || !!im.is_raw != R.raw || bpp != (R.mx > 255 ? 2u : 1u) || n != R.w * R.h)) { snprintf(b, sizeof b, "header read as %zux%zu max %zu raw %d, file says %zux%zu max %zu", (size_t)im.width, (size_t)im.height, (size_t)im.max_value, im.is_raw, R.w, R.h, R.mx); fail = b; }
      else if (!R.w) fail = "a malformed header was accepted";
      else if (n <= 4000000) { char *buf = (char *)malloc(n * bpp); e = vl_pgm_extract_data(in, &im, buf); if (!e != (R.ok == 1)) fail = R.ok == 1 ? "well-formed data was rejected" : "malformed data was accepted"; else if (!e && !R.fuzzy) for (size_t i = 0; i < n; ++i) { unsigned v = bpp == 1 ? (unsigned char)buf[i] : ((unsigned short *)buf)[i]; if (v != R.px[i]) { snprintf(b, sizeof b, "pixel %zu read as %u, file has %u", i, v, R.px[i]); fail = b; break; } } if (e && e != VL_ERR_PGM_INV_DATA) fail = "data error code is not documented"; free(buf); } }
    if (e && fail.empty() && (vl_get_last_error() != e || !strlen(vl_get_last_error_message()))) fail = "the last error does not report the failure"; fclose(in); if (fail.size()) c.fail("%s", fail.c_str()); }
  if (R.w * R.h <= 4000000 && !R.fuzzy) { // file interface
    MemFile mf(file); VlPgmImage im; vl_uint8 *data = NULL; float *fd = NULL; bool flt = c.b(); int e = flt ? vl_pgm_read_new_f(mf.path.c_str(), &im, &fd) : vl_pgm_read_new(mf.path.c_str(), &im, &data); bool want = R.ok == 1 && R.mx < 256; string fail; char b[200];
    if (!e != want) fail = want ? "the file reader rejected a well-formed 8-bit file" : "the file reader accepted a malformed or 16-bit file";
    else if (!e) { if (im.width != R.w || im.height != R.h || im.max_value != R.mx) fail = "the file reader reports another size"; else for (size_t i = 0; i < R.px.size() && fail.empty(); ++i) { if (!flt && data[i] != R.px[i]) { snprintf(b, sizeof b, "file reader: pixel %zu is %u, file has %u", i, data[i], R.px[i]); fail = b; } if (flt && fabs(fd[i] - (double)R.px[i] / R.mx) > 1e-6 * (1 + (double)R.px[i] / R.mx)) { snprintf(b, sizeof b, "float reader: pixel %zu is %g, expected %g", i, fd[i], (double)R.px[i] / R.mx); fail = b; } } if (flt) vl_free(fd); else vl_free(data); }
    else if (vl_get_last_error() != e) fail = "the last error does not report the failure";
    if (fail.size()) c.fail("%s", fail.c_str()); }
  VT_ASSERT(c, !badfree, "a pointer that was never allocated was freed"); VT_ASSERT(c, blocks.size() == nb, "%zu blocks leaked", blocks.size() - nb); VT_ASSERT(c, openfds() == fds, "%d file descriptors leaked", openfds() - fds);
}
static size_t genmax(vt::Ctx &c) { switch (c.i(0, 4)) { case 0: return 255; case 1: return 65535; case 2: return c.i(1, 255); case 3: return c.i(256, 65535); default: return c.pick({1, 256, 2, 254, 257}); } }
VT_CHECK(round_trip, 60000, 800000, "more than one pixel") {
  static bool init = (vl_set_alloc_func(m, r, ca, f), true); (void)init;
  size_t w = c.i(1, 12), h = c.i(1, 12), mx = genmax(c), bpp = mx > 255 ? 2 : 1, n = w * h; vt::Stream s = c.stream(); vector<unsigned> px(n); for (auto &v : px) v = s.below(mx + 1); if (n > 1) c.nontrivial();
  char *buf = (char *)malloc(n * bpp); for (size_t i = 0; i < n; ++i) if (bpp == 1) buf[i] = px[i]; else ((unsigned short *)buf)[i] = px[i]; vector<char> orig(buf, buf + n * bpp);
  int mode = mx == 255 ? c.i(0, 2) : 0; c.label("mode %d, %zu byte(s) per pixel", mode, bpp); c.note("%zux%zu max %zu mode %d\n", w, h, mx, mode); string file; size_t nb = blocks.size();
  if (mode == 0) { VlPgmImage im; im.width = w; im.height = h; im.max_value = mx; im.is_raw = c.b(); char *mp = NULL; size_t mn = 0; FILE *o = open_memstream(&mp, &mn); int e = vl_pgm_insert(o, &im, buf); fclose(o); file.assign(mp, mn); free(mp); if (e) { free(buf); c.fail("writing failed with %d", e); } }
  else if (mode == 1) { MemFile mf(""); int e = vl_pgm_write(mf.path.c_str(), (vl_uint8 *)buf, w, h); file = mf.content(); if (e) { free(buf); c.fail("vl_pgm_write failed with %d", e); } }
  else { vector<float> fl(n); double lo = c.pick({0.0, -3.0, 100.0}), sc = c.pick({1.0, 0.01, 50.0}); for (size_t i = 0; i < n; ++i) fl[i] = lo + sc * px[i]; MemFile mf(""); float *exact = (float *)malloc(n * 4); memcpy(exact, fl.data(), n * 4); int e = vl_pgm_write_f(mf.path.c_str(), exact, w, h); free(exact); file = mf.content(); Ref R = parse(file); string fail;
    double mn = 1e30, mxv = -1e30; for (float v : fl) { mn = std::min(mn, (double)v); mxv = std::max(mxv, (double)v); } if (e || R.ok != 1 || R.w != w || R.h != h || R.mx != 255) fail = "vl_pgm_write_f wrote a malformed file"; else for (size_t i = 0; i < n; ++i) { double v = mxv > mn ? (fl[i] - mn) * 255 / (mxv - mn) : 0; if (fabs(v - R.px[i]) > 1.01) { char b[100]; snprintf(b, sizeof b, "vl_pgm_write_f: pixel %zu is %u, rescaled value is %g", i, R.px[i], v); fail = b; break; } } free(buf); if (fail.size()) c.fail("%s", fail.c_str()); return; }
  bool same = memcmp(buf, orig.data(), n * bpp) == 0; free(buf); VT_ASSERT(c, same, "writing modified the pixels"); VT_ASSERT(c, blocks.size() == nb, "writing leaked memory");
  Ref R = parse(file); VT_ASSERT(c, R.ok == 1 && R.w == w && R.h == h && R.mx == mx && R.raw, "written file has another header"); for (size_t i = 0; i < n; ++i) VT_ASSERT(c, R.px[i] == px[i], "written pixel %zu is %u, should be %u", i, R.px[i], px[i]);
  size_t head = file.size() - n * bpp; VT_ASSERT(c, parse(file.substr(0, head) + file.substr(head)).ok == 1 && file.size() == head + n * bpp, "size"); read_and_compare(c, file);
}
static string sp(vt::Ctx &c) { string s; int n = c.small(1, 3); for (int i = 0; i < n; ++i) { if (c.chance(1, 5)) { s += "#"; int k = c.small(0, 6); for (int j = 0; j < k; ++j) s += "ab 12#"[c.i(0, 5)]; s += "\n"; } else s += " \n\t\r"[c.i(0, 3)]; } return s; }
static string genfile(vt::Ctx &c) {
  bool raw = c.b(); size_t w = c.i(1, 6), h = c.i(1, 6), mx = genmax(c); string s = raw ? "P5" : "P2"; s += sp(c) + std::to_string(w) + sp(c) + std::to_string(h) + sp(c) + std::to_string(mx) + string(1, " \n\t\r"[c.i(0, 3)]); vt::Stream st = c.stream();
  for (size_t i = 0; i < w * h; ++i) { unsigned v = st.below(mx + 1); if (raw) { if (mx > 255) s += (char)(v >> 8); s += (char)v; } else s += (st.below(3) ? " " : "\n ") + std::to_string(v); } return s;
}
VT_CHECK(well_formed, 60000, 800000, "always (header layout varies)") { string s = genfile(c); if (c.chance(1, 5)) s += "\n trailing"; c.nontrivial(); read_and_compare(c, s); }
VT_CHECK(malformed, 120000, 3000000, "the mutated file is malformed") {
  string s = genfile(c); int k = c.small(1, 4);
  for (int i = 0; i < k; ++i) { size_t hd = std::min<size_t>(s.size(), 24); switch (c.i(0, 6)) {
    case 0: s.resize(c.i(0, s.size())); break;
    case 1: if (hd) s[c.i(0, hd - 1)] = "P25 \n#0129-ax"[c.i(0, 12)]; break;
    case 2: if (s.size()) s[c.i(0, s.size() - 1)] = (char)c.i(0, 255); break;
    case 3: if (hd) s.erase(c.i(0, hd - 1), c.i(1, 3)); break;
    case 4: s.insert(c.i(0, hd), c.pick(vector<string>{"0", "-", "99", "#", " ", "65536", "\n", "d", "2147483647", "P5", "\xff", "7 "})); break;
    case 5: if (s.size()) s.resize(s.size() - 1); break;
    default: { size_t p = c.i(0, s.size()); s.insert(p, string(c.i(1, 3), c.pick({' ', '#', 'x', '1', '-', '\n', 'd'}))); } } }
  if (parse(s).ok == 0) c.nontrivial(); read_and_compare(c, s);
}
VT_CHECK(arbitrary, 60000, 2000000, "starts with a PGM magic number") { string s; if (c.b()) s = c.pick(vector<string>{"P5", "P2", "P", "p5", "P6", "P1"}); int n = c.small(0, 40); for (int i = 0; i < n; ++i) s += c.chance(1, 6) ? (char)c.i(0, 255) : " \n129#"[c.i(0, 5)]; if (s.size() > 1 && s[0] == 'P' && (s[1] == '2' || s[1] == '5')) c.nontrivial(); read_and_compare(c, s); }
int main(int a, char **b) { return vt::vt_main(a, b); }
