// monotonic regression against its definition
#include "hx.hpp"
#include "higra/algo/tree_monotonic_regression.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 10); T r(p); hg::tree t = mk(p); int n = r.n;
  std::vector<double> x = rand_vals(c.rng, n, 1 + (int) c.rng.below(12)), w(n, 1.0); bool hw = c.rng.coin(); for (auto &y : w) y = hw ? (double) c.rng.in(1, 4) : 1.0;
  fine(c.rng, x);
  if (c.rng.coin(20)) for (int v = r.root - 1; v >= 0; --v) x[v] = std::min(x[v], x[p[v]]);
  c.vec("altitudes", x); c.vec("weights", w); auto X = arr(x), W = arr(w); hg::array_1d<double> none{};
  bool incr = true; for (int v = 0; v < n; ++v) if (x[v] > x[p[v]]) incr = false;
  for (int cc = 0; cc < 2; ++cc) {
    t.clear_children(); if (cc) t.compute_children();
    hg::array_1d<double> M = hg::tree_monotonic_regression(t, X, none, "max"), m = hg::tree_monotonic_regression(t, X, none, "min"), M2 = hg::tree_monotonic_regression(t, X, "max");
    REQ((int) M.size() == n && (int) m.size() == n && (int) M2.size() == n);
    for (int v = 0; v < n; ++v) {
      double a = x[v], b = x[v]; for (int u = 0; u < n; ++u) { if (r.anc(v, u)) a = std::max(a, x[u]); if (r.anc(u, v)) b = std::min(b, x[u]); }
      REQ(M(v) == a && M2(v) == a, << "max mode, node " << v << " got " << M(v) << " expected " << a); REQ(m(v) == b, << "min mode, node " << v << " got " << m(v) << " expected " << b);
    }
  }
  hg::array_1d<double> L = hw ? hg::array_1d<double>(hg::tree_monotonic_regression(t, X, W, "least_square")) : hg::array_1d<double>(hg::tree_monotonic_regression(t, X, none, "least_square")); REQ((int) L.size() == n);
  for (int v = 0; v < n; ++v) { REQ(L(v) <= L(p[v]) + 1e-9, << "least square mode is not increasing at node " << v); if (incr) REQ(std::fabs(L(v) - x[v]) < 1e-9, << "least square mode changes an increasing map at node " << v); }
}); }
