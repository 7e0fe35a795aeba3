// C08: agglomerative information bottleneck: every merge is a cheapest one, costs are the mutual information.
#include "vt.h"
#include "vl_all.h"
typedef long double ld;
static ld plogp(ld x) { return x > 0 ? x * logl(x) : 0; }
VT_CHECK(greedy, 40000, 1000000, "at least four values of non-null probability and two labels") {
  unsigned n = (unsigned)c.small(1, 24), L = (unsigned)c.small(1, 6); int cls = (int)c.i(0, 5); vt::Stream s = c.stream(); std::vector<double> P(n * L);
  for (unsigned x = 0; x < n; ++x) for (unsigned l = 0; l < L; ++l) { double v; switch (cls) { case 0: v = s.uni(); break; case 1: v = s.below(3) ? 0 : s.uni(); break; case 2: v = (double)s.below(4); break; case 3: v = exp(s.real(-12, 3)); break; case 4: v = x % 3 == 1 ? 0 : s.uni(); break; default: v = l == x % L ? 1 + 0.1 * s.uni() : (s.below(4) ? 0 : 0.05); } P[x * L + l] = v; }
  double tot = 0; for (auto v : P) tot += v; if (tot <= 0) c.discard(); c.label("class %d", cls); c.note("n=%u labels=%u class %d\n", n, L, cls);
  std::vector<ld> p(n * L); ld t2 = 0; for (auto v : P) t2 += v; for (size_t j = 0; j < p.size(); ++j) p[j] = P[j] / t2;
  double *pc = (double *)malloc(sizeof(double) * n * L); memcpy(pc, P.data(), sizeof(double) * n * L); VlAIB *a = vl_aib_new(pc, n, L); VT_ASSERT(c, vl_aib_get_verbosity(a) == 0, "verbosity"); vl_aib_process(a);
  std::vector<unsigned> par(vl_aib_get_parents(a), vl_aib_get_parents(a) + 2 * n - 1); std::vector<double> cost(vl_aib_get_costs(a), vl_aib_get_costs(a) + n); vl_aib_delete(a); free(pc);
  // replay the merges
  std::vector<ld> pl(L, 0); for (unsigned x = 0; x < n; ++x) for (unsigned l = 0; l < L; ++l) pl[l] += p[x * L + l];
  std::map<unsigned, std::vector<ld>> node; unsigned nn = 0; for (unsigned x = 0; x < n; ++x) { std::vector<ld> q(p.begin() + x * L, p.begin() + (x + 1) * L); ld m = 0; for (auto v : q) m += v; if (m > 0) { node[x] = q; ++nn; } else VT_ASSERT(c, par[x] > 2 * n - 1, "value %u has null probability but parent %u", x, par[x]); }
  auto mass = [&](const std::vector<ld> &q) { ld m = 0; for (auto v : q) m += v; return m; };
  auto info = [&]() { ld I = 0; for (auto &e : node) { ld m = mass(e.second); for (unsigned l = 0; l < L; ++l) if (e.second[l] > 0) I += e.second[l] * logl(e.second[l] / (m * pl[l])); } return I; };
  auto loss = [&](const std::vector<ld> &x, const std::vector<ld> &y) { ld mx = mass(x), my = mass(y), d = plogp(mx + my) - plogp(mx) - plogp(my); for (unsigned l = 0; l < L; ++l) d += plogp(x[l]) + plogp(y[l]) - plogp(x[l] + y[l]); return d; };
  if (nn >= 4 && L >= 2) c.nontrivial(); const ld tol = 1e-12L * (n + 4);
  VT_ASSERT(c, fabsl(cost[0] - info()) <= tol, "initial information %.15g, reference %.15Lg", cost[0], info());
  unsigned merges = nn ? nn - 1 : 0; ld prev = info();
  for (unsigned i = 0; i + 1 < n; ++i) { unsigned nw = n + i; if (i >= merges) { VT_ASSERT(c, std::isnan(cost[i + 1]), "cost after merge %u is %g although no merge is left", i + 1, cost[i + 1]); VT_ASSERT(c, par[nw] > 2 * n - 1, "unused node %u has parent %u", nw, par[nw]); continue; }
    std::vector<unsigned> ch; for (auto &e : node) if (par[e.first] == nw) ch.push_back(e.first); unsigned all = 0; for (unsigned v = 0; v < 2 * n - 1; ++v) all += par[v] == nw; VT_ASSERT(c, ch.size() == 2 && all == 2, "node %u has %zu live children (%u in all)", nw, ch.size(), all);
    ld d = loss(node[ch[0]], node[ch[1]]), best = HUGE_VALL; for (auto x = node.begin(); x != node.end(); ++x) for (auto y = std::next(x); y != node.end(); ++y) best = std::min(best, loss(x->second, y->second));
    VT_ASSERT(c, d <= best + tol, "merge %u of nodes %u and %u loses %.12Lg of information, the cheapest merge %.12Lg", i + 1, ch[0], ch[1], d, best);
    std::vector<ld> q(L); for (unsigned l = 0; l < L; ++l) q[l] = node[ch[0]][l] + node[ch[1]][l]; node.erase(ch[0]); node.erase(ch[1]); node[nw] = q; ld I = info();
    VT_ASSERT(c, fabsl(cost[i + 1] - I) <= tol, "information after merge %u is %.15g, reference %.15Lg", i + 1, cost[i + 1], I); VT_ASSERT(c, I <= prev + tol, "information increases"); prev = I; }
  if (merges) VT_ASSERT(c, par[n + merges - 1] == 0, "parent of the root is %u", par[n + merges - 1]);
}
int main(int a, char **b) { return vt::vt_main(a, b); }
