// accumulators and propagators on trees against the folds of their definition
#include "hx.hpp"
#include "higra/accumulator/tree_accumulator.hpp"
using namespace hx;
using V = std::vector<double>; using F = std::function<double(const V &, double)>;   // values of the children, unspecified value when there is no child
static bool eq(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)) || (std::isnan(a) && std::isnan(b)); }
static const double MX = std::numeric_limits<double>::max(), LO = std::numeric_limits<double>::lowest();
template<class A> void check(Ctx &c, const T &r, hg::tree &t, const V &x, const V &ld, const std::vector<char> &cond, const A &acc, const F &f, const char *name, bool order, bool arg) {
  const double U = std::nan("");
  auto X = arr(x), L = arr(ld); auto C = arrb(cond);
  for (int cc = 0; cc < 2; ++cc) {
    t.clear_children(); if (cc) t.compute_children();
    { auto o = hg::accumulate_parallel(t, X, acc); REQ((int) o.size() == r.n);
      for (int v = 0; v < r.n; ++v) { V k; for (int u : r.ch[v]) k.push_back(x[u]); double e = f(k, U); if (!std::isnan(e)) REQ(eq(o(v), e), << name << " accumulate_parallel node " << v << " got " << o(v) << " expected " << e); } }
    { auto o = hg::accumulate_sequential(t, L, acc); REQ((int) o.size() == r.n); V e(r.n);
      for (int v = 0; v < r.n; ++v) { if (r.leaf(v)) e[v] = ld[v]; else { V k; for (int u : r.ch[v]) k.push_back(e[u]); e[v] = f(k, U); } REQ(eq(o(v), e[v]), << name << " accumulate_sequential node " << v << " got " << o(v) << " expected " << e[v]); } }
    auto comb = [&](auto g, const char *gn) { auto o = hg::accumulate_and_combine_sequential(t, X, L, acc, g); REQ((int) o.size() == r.n); V e(r.n);
      for (int v = 0; v < r.n; ++v) { if (r.leaf(v)) e[v] = ld[v]; else { V k; for (int u : r.ch[v]) k.push_back(e[u]); e[v] = g(f(k, U), x[v]); } REQ(eq(o(v), e[v]), << name << " accumulate_and_combine_sequential " << gn << " node " << v << " got " << o(v) << " expected " << e[v]); } };
    comb(std::plus<double>(), "plus"); comb([](double a, double b) { return std::min(a, b); }, "min"); if (std::string(name) != "prod") comb(std::multiplies<double>(), "multiplies"); comb([](double, double b) { return b; }, "second");
  }
  for (int wc = 0; wc < 2; ++wc) {
    auto o = wc ? hg::propagate_sequential_and_accumulate(t, X, acc, C) : hg::propagate_sequential_and_accumulate(t, X, acc); REQ((int) o.size() == r.n); V e(r.n);
    for (int v = r.n - 1; v >= 0; --v) { if (wc && !cond[v]) e[v] = x[v]; else if (v == r.root) e[v] = f({x[v]}, U); else e[v] = f({e[r.p[v]], x[v]}, U); REQ(eq(o(v), e[v]), << name << " propagate_sequential_and_accumulate node " << v << " got " << o(v) << " expected " << e[v]); }
  }
}
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 10); T r(p); hg::tree t = mk(p);
  V x = rand_vals(c.rng, r.n, 8), ld = rand_vals(c.rng, r.nl, 8); std::vector<char> cond(r.n); for (auto &b : cond) b = c.rng.coin();
  c.vec("input", x); c.vec("leaf_data", ld); c.vec("condition", cond);
  auto sum = [](const V &k, double) { double s = 0; for (double y : k) s += y; return s; };
  check(c, r, t, x, ld, cond, hg::accumulator_sum(), sum, "sum", false, false);
  check(c, r, t, x, ld, cond, hg::accumulator_prod(), [](const V &k, double) { double s = 1; for (double y : k) s *= y; return s; }, "prod", false, false);
  check(c, r, t, x, ld, cond, hg::accumulator_min(), [](const V &k, double) { double s = MX; for (double y : k) s = std::min(s, y); return s; }, "min", false, false);
  check(c, r, t, x, ld, cond, hg::accumulator_max(), [](const V &k, double) { double s = LO; for (double y : k) s = std::max(s, y); return s; }, "max", false, false);
  check(c, r, t, x, ld, cond, hg::accumulator_mean(), [&](const V &k, double) { return k.empty() ? 0.0 : sum(k, 0) / (double) k.size(); }, "mean", false, false);
  check(c, r, t, x, ld, cond, hg::accumulator_counter(), [](const V &k, double) { return (double) k.size(); }, "counter", false, false);
  check(c, r, t, x, ld, cond, hg::accumulator_first(), [](const V &k, double u) { return k.empty() ? u : k.front(); }, "first", false, false);
  check(c, r, t, x, ld, cond, hg::accumulator_last(), [](const V &k, double u) { return k.empty() ? u : k.back(); }, "last", false, false);
  check(c, r, t, x, ld, cond, hg::accumulator_argmin(), [](const V &k, double) { return k.empty() ? -1.0 : (double) (std::min_element(k.begin(), k.end()) - k.begin()); }, "argmin", false, true);
  check(c, r, t, x, ld, cond, hg::accumulator_argmax(), [](const V &k, double) { return k.empty() ? -1.0 : (double) (std::max_element(k.begin(), k.end()) - k.begin()); }, "argmax", false, true);
  auto X = arr(x); auto C = arrb(cond);
  auto a = hg::propagate_parallel(t, X), b = hg::propagate_parallel(t, X, C), s = hg::propagate_sequential(t, X, C);
  for (int v = 0; v < r.n; ++v) {
    REQ(a(v) == x[p[v]], << "propagate_parallel node " << v); REQ(b(v) == (cond[v] ? x[p[v]] : x[v]), << "propagate_parallel(condition) node " << v);
    int k = v; while (k != r.root && cond[k]) k = (int) p[k]; REQ(s(v) == x[k], << "propagate_sequential node " << v);
  }
}); }
