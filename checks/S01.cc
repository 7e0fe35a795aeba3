// S01: string helpers against reference models over std::string, with exactly sized buffers.
#include "vt.h"
#include "vl_all.h"
#include <string>
using std::string;
struct Exact { char *p; explicit Exact(const string &s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { free(p); } operator const char *() const { return p; } };
static string gen(vt::Ctx &c, const char *alpha, int maxlen) { int n = c.small(0, maxlen), m = strlen(alpha); string s; for (int i = 0; i < n; ++i) s += c.chance(1, 12) ? (char)c.i(1, 255) : alpha[c.i(0, m - 1)]; return s; }
static size_t gensize(vt::Ctx &c, const string &expect) { switch (c.i(0, 3)) { case 0: return c.i(0, expect.size() + 3); case 1: return expect.size() + 1; case 2: return expect.size(); default: return c.i(0, 40); } }
static void check_out(vt::Ctx &c, const char *fn, const string &expect, std::function<size_t(char *, size_t)> f) {
  size_t n = gensize(c, expect); bool null0 = n == 0 && c.b(); char *d = null0 ? NULL : (char *)malloc(n ? n : 1); if (d) memset(d, 0x5a, n ? n : 1);
  size_t r = f(d, n); c.note("%s into %zu bytes%s, full result \"%s\"", fn, n, null0 ? " (null buffer)" : "", expect.c_str()); c.label("%s %s", fn, n == 0 ? "no room" : n <= expect.size() ? "truncated" : "fits");
  string got; bool term = true; if (n) { void *z = memchr(d, 0, n); term = z != NULL; if (term) got = d; } else if (d) term = d[0] == 0x5a;
  free(d);
  VT_ASSERT(c, r == expect.size(), "%s returned length %zu, complete result has %zu characters", fn, r, expect.size());
  VT_ASSERT(c, term, n ? "%s did not terminate the result" : "%s wrote to a zero-sized buffer", fn);
  if (n) VT_ASSERT(c, got == expect.substr(0, n - 1), "%s stored \"%s\", expected \"%s\"", fn, got.c_str(), expect.substr(0, n - 1).c_str());
}
VT_CHECK(copy, 60000, 1000000, "non-empty source") {
  string s = gen(c, "abc/.%", 24); if (s.size()) c.nontrivial(); Exact e(s);
  VT_ASSERT(c, vl_string_length(e) == s.size(), "length");
  if (c.b()) check_out(c, "vl_string_copy", s, [&](char *d, size_t n) { return vl_string_copy(d, n, e); });
  else { size_t b = c.i(0, s.size()), en = c.i(0, s.size() + 1); if (en > s.size() + 1) en = s.size() + 1; string sub = en > b ? s.substr(b, en - b) : ""; check_out(c, "vl_string_copy_sub", sub, [&](char *d, size_t n) { return vl_string_copy_sub(d, n, e.p + b, e.p + en); }); }
}
VT_CHECK(basename, 60000, 1000000, "source has a separator or a dot") {
  string s = gen(c, "ab./\\.", 24); size_t k = c.i(0, 4); Exact e(s); size_t p = s.find_last_of("/\\"); string x = p == string::npos ? s : s.substr(p + 1);
  for (size_t i = 0; i < k; ++i) { size_t d = x.rfind('.'); if (d == string::npos) break; x = x.substr(0, d); }
  if (s.find_first_of("/\\.") != string::npos) c.nontrivial(); c.note("source \"%s\", strip %zu", s.c_str(), k);
  check_out(c, "vl_string_basename", x, [&](char *d, size_t n) { return vl_string_basename(d, n, e, k); });
}
VT_CHECK(replace_wildcard, 60000, 1000000, "at least one wildcard replaced") {
  string s = gen(c, "ab%%\\\\*", 20), r = gen(c, "xy%\\", 8); char w = c.pick({'%', '*', 'a', '\0', '\\'}), esc = c.pick({'\\', '\0', '%', 'b'}); string x; bool es = false; int cnt = 0;
  for (char ch : s) { if (!es && esc && ch == esc) { es = true; continue; } if (!es && w && ch == w) { x += r; ++cnt; } else x += ch; es = false; }
  if (cnt) c.nontrivial(); c.note("source \"%s\" wildcard %d escape %d replacement \"%s\"", s.c_str(), w, esc, r.c_str()); Exact e(s), er(r);
  check_out(c, "vl_string_replace_wildcard", x, [&](char *d, size_t n) { return vl_string_replace_wildcard(d, n, e, w, esc, er); });
}
VT_CHECK(protocol, 60000, 500000, "the string contains ://") {
  string s; static const std::vector<string> pre = {"ascii", "bin", "binary", "a", "", "asc", "b", "ASCII", "asciix", "bi", "http", "x"}; switch (c.i(0, 3)) { case 0: s = gen(c, "asci:/bn", 14); break; case 1: s = c.pick(pre) + "://" + gen(c, "a:/", 8); break; case 2: s = c.pick(pre) + gen(c, ":/", 4) + gen(c, "a:/", 8); break; default: s = gen(c, "bina", 6) + "://" + gen(c, ":/", 6); }
  size_t p = s.find("://"); int e; if (p == string::npos) e = VL_PROT_NONE; else { string q = s.substr(0, p); e = q == "ascii" ? VL_PROT_ASCII : (q == "bin" || q == "binary") ? VL_PROT_BINARY : VL_PROT_UNKNOWN; c.nontrivial(); }
  Exact ex(s); int prot = 99; char *r = vl_string_parse_protocol(ex, c.chance(1, 8) ? NULL : &prot); c.note("\"%s\"", s.c_str()); c.label("protocol %d", e);
  VT_ASSERT(c, (size_t)(r - ex.p) == (p == string::npos ? 0 : p + 3), "rest starts at offset %ld", (long)(r - ex.p)); if (prot != 99) VT_ASSERT(c, prot == e, "protocol code %d, expected %d", prot, e);
  const char *nm = vl_string_protocol_name(e); if (e > 0) { string u = string(nm) + "://"; int q = 99; vl_string_parse_protocol(u.c_str(), &q); VT_ASSERT(c, q == e, "the name \"%s\" of protocol %d parses as %d", nm, e, q); }
}
VT_CHECK(search_compare, 60000, 1000000, "strings not empty") {
  string s = gen(c, "aAbB", 10), t = c.chance(1, 3) ? s : gen(c, "aAbB", 10); if (c.chance(1, 3)) { t = s; for (auto &ch : t) if (c.b()) ch = isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch); } if (c.chance(1, 4) && t.size()) t.resize(t.size() - 1);
  if (s.size() && t.size()) c.nontrivial(); c.note("\"%s\" \"%s\"", s.c_str(), t.c_str()); Exact es(s), et(t);
  auto low = [](string a) { for (auto &ch : a) ch = (char)tolower((unsigned char)ch); return a; }; int cmp = low(s).compare(low(t)), g = vl_string_casei_cmp(es, et);
  VT_ASSERT(c, (cmp < 0) == (g < 0) && (cmp > 0) == (g > 0), "case-insensitive comparison gave %d, expected sign of %d", g, cmp);
  char ch = c.pick({'a', 'B', 'z', '\0'}); size_t b = c.i(0, s.size()), e = c.i(0, s.size()); if (b > e) std::swap(b, e); char *r = vl_string_find_char_rev(es.p + b, es.p + e, ch); long exp = -1; for (size_t i = b; i < e; ++i) if (s[i] == ch) exp = i;
  VT_ASSERT(c, exp < 0 ? r == NULL : r == es.p + exp, "reverse search of '%c' in [%zu,%zu) found %ld, expected %ld", ch, b, e, r ? (long)(r - es.p) : -1L, exp);
}
VT_CHECK(enumerations, 40000, 500000, "at least two members") {
  int n = c.small(0, 6); std::vector<string> names; std::vector<long> vals; for (int i = 0; i < n; ++i) { names.push_back(gen(c, "aAbB", 3)); vals.push_back(c.i(-2, 3)); }
  VlEnumerator *en = (VlEnumerator *)malloc(sizeof(VlEnumerator) * (n + 1)); std::vector<std::unique_ptr<Exact>> keep; for (int i = 0; i < n; ++i) { keep.emplace_back(new Exact(names[i])); en[i].name = keep.back()->p; en[i].value = vals[i]; } en[n].name = NULL; en[n].value = c.i(-2, 3);
  string q = gen(c, "aAbB", 3); long v = c.i(-3, 4); Exact eq(q); if (n > 1) c.nontrivial(); auto low = [](string a) { for (auto &ch : a) ch = (char)tolower((unsigned char)ch); return a; };
  int a = -1, b = -1, d = -1; for (int i = n - 1; i >= 0; --i) { if (names[i] == q) a = i; if (low(names[i]) == low(q)) b = i; if (vals[i] == v) d = i; } c.note("%d members, query \"%s\" / %ld", n, q.c_str(), v);
  VlEnumerator *ra = vl_enumeration_get(en, eq), *rb = vl_enumeration_get_casei(en, eq), *rd = vl_enumeration_get_by_value(en, v); auto ix = [&](VlEnumerator *x) { return x ? (int)(x - en) : -1; }; int ia = ix(ra), ib = ix(rb), id = ix(rd); free(en);
  VT_ASSERT(c, ia == a, "look-up by name found %d, expected %d", ia, a); VT_ASSERT(c, ib == b, "case-insensitive look-up found %d, expected %d", ib, b); VT_ASSERT(c, id == d, "look-up by value found %d, expected %d", id, d);
}
int main(int a, char **b) { return vt::vt_main(a, b); }
