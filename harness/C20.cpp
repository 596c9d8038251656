// weighting of edges from scalar and vector vertex data, and user functions
#include "hx.hpp"
#include "higra/algo/graph_weights.hpp"
using namespace hx; using hg::weight_functions;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, c.rng.coin(15) ? 30 : 7, 14, c.rng.coin(30)); show(c, q); hg::ugraph g = mk(q); int n = q.n, m = (int) q.e.size();
  int d = (int) c.rng.in(1, 4), d2 = (int) c.rng.in(1, 2); c.put("d", d); c.put("d2", d2); std::vector<double> x(n * d * d2); for (auto &y : x) y = (double) c.rng.in(-4, 4) / 2; c.vec("data", x);
  struct F { weight_functions f; const char *s; bool vec; } fs[] = {{weight_functions::mean, "mean", false}, {weight_functions::min, "min", false}, {weight_functions::max, "max", false}, {weight_functions::L0, "L0", true}, {weight_functions::L1, "L1", true}, {weight_functions::L2, "L2", true}, {weight_functions::L_infinity, "L_infinity", true}, {weight_functions::L2_squared, "L2_squared", true}, {weight_functions::source, "source", false}, {weight_functions::target, "target", false}};
  auto val = [&](std::string s, const double *a, const double *b, int k) -> double {
    if (s == "mean") return (*a + *b) / 2; if (s == "min") return std::min(*a, *b); if (s == "max") return std::max(*a, *b); if (s == "source") return *a; if (s == "target") return *b;
    double l0 = 0, l1 = 0, li = 0, l2 = 0; for (int i = 0; i < k; ++i) { double t = std::abs(a[i] - b[i]); if (t != 0) l0 = 1; l1 += t; l2 += t * t; li = std::max(li, t); }
    return s == "L0" ? l0 : s == "L1" ? l1 : s == "L2" ? std::sqrt(l2) : s == "L_infinity" ? li : l2; };
  hg::array_1d<double> a1 = hg::array_1d<double>::from_shape({(size_t) n}); for (int v = 0; v < n; ++v) a1(v) = x[v];
  hg::array_nd<double> a2 = hg::array_nd<double>::from_shape({(size_t) n, (size_t) d}); for (int v = 0; v < n; ++v) for (int i = 0; i < d; ++i) a2(v, i) = x[v * d + i];
  hg::array_nd<double> a3 = hg::array_nd<double>::from_shape({(size_t) n, (size_t) d, (size_t) d2}); for (int v = 0; v < n; ++v) for (int i = 0; i < d; ++i) for (int j = 0; j < d2; ++j) a3(v, i, j) = x[(v * d + i) * d2 + j];
  for (auto &f : fs) {
    auto chk = [&](const hg::array_1d<double> &r, int k, const char *w) { REQ((int) r.size() == m); for (int e = 0; e < m; ++e) { auto ed = hg::edge_from_index(e, g); double y = val(f.s, &x[hg::source(ed, g) * k], &x[hg::target(ed, g) * k], k); REQ(std::abs(r(e) - y) <= 1e-12, << f.s << " " << w << " edge " << e << " got " << r(e) << " expected " << y); } };
    chk(hg::weight_graph<double>(g, a1, f.f), 1, "scalar"); if (f.vec) { chk(hg::weight_graph<double>(g, a2, f.f), d, "vector"); chk(hg::weight_graph<double>(g, a3, f.f), d * d2, "2d"); }
    auto ii = hg::weight_graph<int>(g, xt::eval(xt::cast<int>(a1)), f.f); REQ((int) ii.size() == m);
  }
  // narrow, unsigned and wide integer data: the declared function of the values, whatever the type they are stored in
  auto typed = [&](auto zero, long lo, long hi, const char *tn) { using V = decltype(zero);
    std::vector<double> y(n * d); hg::array_1d<V> b1 = hg::array_1d<V>::from_shape({(size_t) n}); hg::array_nd<V> b2 = hg::array_nd<V>::from_shape({(size_t) n, (size_t) d});
    for (int v = 0; v < n; ++v) for (int i = 0; i < d; ++i) { V t = (V) (c.rng.coin(30) ? (c.rng.coin() ? lo : hi) : (long) c.rng.in(lo, hi)); b2(v, i) = t; y[v * d + i] = (double) t; if (i == 0) b1(v) = t; }
    c.in << tn << "="; for (auto t : y) c.in << (long) t << ",";
    c.in << " "; std::vector<double> y1(n); for (int v = 0; v < n; ++v) y1[v] = y[v * d];
    for (auto &f : fs) { auto chk = [&](const hg::array_1d<double> &r, const std::vector<double> &z, int k) { REQ((int) r.size() == m); for (int e = 0; e < m; ++e) { auto ed = hg::edge_from_index(e, g); double w = val(f.s, &z[hg::source(ed, g) * k], &z[hg::target(ed, g) * k], k); REQ(std::abs(r(e) - w) <= 1e-9 * (1 + std::abs(w)), << f.s << " of " << tn << " data, edge " << e << " got " << r(e) << " expected " << w); } };
      chk(hg::weight_graph<double>(g, b1, f.f), y1, 1); if (f.vec) chk(hg::weight_graph<double>(g, b2, f.f), y, d); } };
  switch (c.k % 5) { case 0: typed((unsigned char) 0, 0, 255, "uint8"); break; case 1: typed((unsigned long) 0, 0, 1000, "uint64"); break; case 2: typed((short) 0, -32768, 32767, "int16"); break; case 3: typed((int) 0, -2147483647L - 1, 2147483647L, "int32"); break; default: typed((long) 0, -1000, 1000, "int64"); }
  std::function<double(hg::ugraph::vertex_descriptor, hg::ugraph::vertex_descriptor)> uf = [&](index_t a, index_t b) { return x[a] * 3 + x[b] * 5 + (double) a; };
  auto r = hg::weight_graph(g, uf); for (int e = 0; e < m; ++e) { auto ed = hg::edge_from_index(e, g); REQ(r(e) == uf(hg::source(ed, g), hg::target(ed, g))); }
}); }
