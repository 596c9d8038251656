// graph and indexed accumulators against the folds of their definition
#include "hx.hpp"
#include "higra/accumulator/graph_accumulator.hpp"
#include "higra/accumulator/at_accumulator.hpp"
using namespace hx;
using V = std::vector<double>; using F = std::function<double(const V &)>;
static bool eq(double a, double b) { return std::isnan(b) || a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }
static const double MX = std::numeric_limits<double>::max(), LO = std::numeric_limits<double>::lowest(), U = std::nan("");
static hg::array_2d<double> two(const V &a, const V &b) { hg::array_2d<double> r = hg::array_2d<double>::from_shape({a.size(), 2}); for (size_t i = 0; i < a.size(); ++i) { r(i, 0) = a[i]; r(i, 1) = b[i]; } return r; }
template<class A> void check(const hg::ugraph &g, const std::vector<std::vector<int>> &oe, const std::vector<std::vector<int>> &nb, const V &ew, const V &ew2, const V &vw, const V &vw2, const std::vector<index_t> &ix, const V &aw, const V &aw2, const A &acc, const F &f, const char *name) {
  bool vec = std::string(name).substr(0, 3) != "arg";   // argmin / argmax have no point-wise vectorial form
  auto at = [](const V &x, const std::vector<int> &l) { V r; for (int k : l) r.push_back(x[k]); return r; };
  auto cmp = [&](const auto &o, const std::vector<std::vector<int>> &ls, const V &x, const char *w) { REQ(o.size() == ls.size(), << name << " " << w << " size"); for (size_t v = 0; v < ls.size(); ++v) { double e = f(at(x, ls[v])); REQ(eq(o.data()[v], e), << name << " " << w << " at " << v << " got " << o.data()[v] << " expected " << e); } };
  auto cmp2 = [&](const auto &o, const std::vector<std::vector<int>> &ls, const V &x, const V &y, const char *w) { REQ(o.size() == 2 * ls.size(), << name << " " << w << " size"); for (size_t v = 0; v < ls.size(); ++v) for (int j = 0; j < 2; ++j) { double e = f(at(j ? y : x, ls[v])); REQ(eq(o.data()[2 * v + j], e), << name << " vectorial " << w << " at " << v << " got " << o.data()[2 * v + j] << " expected " << e); } };
  cmp(hg::accumulate_graph_edges(g, arr(ew), acc), oe, ew, "accumulate_graph_edges"); cmp(hg::accumulate_graph_vertices(g, arr(vw), acc), nb, vw, "accumulate_graph_vertices");
  if (vec) cmp2(hg::accumulate_graph_vertices(g, two(vw, vw2), acc), nb, vw, vw2, "accumulate_graph_vertices"); if (vec && !ew.empty()) cmp2(hg::accumulate_graph_edges(g, two(ew, ew2), acc), oe, ew, ew2, "accumulate_graph_edges");
  index_t m = *std::max_element(ix.begin(), ix.end()); std::vector<std::vector<int>> ls((size_t) (m + 1)); for (size_t j = 0; j < ix.size(); ++j) if (ix[j] >= 0) ls[ix[j]].push_back((int) j);
  cmp(hg::accumulate_at(arr(ix), arr(aw), acc), ls, aw, "accumulate_at"); if (vec && m >= 0) cmp2(hg::accumulate_at(arr(ix), two(aw, aw2), acc), ls, aw, aw2, "accumulate_at");
}
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, 8, 10, false); hg::ugraph g = mk(q); std::vector<char> rm(q.e.size()); for (size_t i = 0; i < rm.size(); ++i) if (c.rng.coin(10)) { rm[i] = 1; hg::remove_edge((index_t) i, g); }
  show(c, q); c.vec("removed", rm); std::vector<std::vector<int>> oe(q.n), nb(q.n);
  for (size_t i = 0; i < q.e.size(); ++i) if (!rm[i]) { int a = q.e[i].first, b = q.e[i].second; oe[a].push_back((int) i); nb[a].push_back(b); if (a != b) { oe[b].push_back((int) i); nb[b].push_back(a); } }
  V ew = rand_vals(c.rng, q.e.size(), 8), ew2 = rand_vals(c.rng, q.e.size(), 8), vw = rand_vals(c.rng, q.n, 8), vw2 = rand_vals(c.rng, q.n, 8); int k = (int) c.rng.in(1, 9); std::vector<index_t> ix(k); for (auto &x : ix) x = c.rng.in(-1, 4); V aw = rand_vals(c.rng, k, 8), aw2 = rand_vals(c.rng, k, 8);
  c.vec("edge_weights", ew); c.vec("vertex_weights", vw); c.vec("indices", ix); c.vec("at_weights", aw);
  auto sum = [](const V &k) { double s = 0; for (double y : k) s += y; return s; };
  auto ck = [&](auto acc, const F &f, const char *n) { check(g, oe, nb, ew, ew2, vw, vw2, ix, aw, aw2, acc, f, n); };
  ck(hg::accumulator_sum(), sum, "sum"); ck(hg::accumulator_prod(), [](const V &k) { double s = 1; for (double y : k) s *= y; return s; }, "prod");
  ck(hg::accumulator_min(), [](const V &k) { double s = MX; for (double y : k) s = std::min(s, y); return s; }, "min"); ck(hg::accumulator_max(), [](const V &k) { double s = LO; for (double y : k) s = std::max(s, y); return s; }, "max");
  ck(hg::accumulator_mean(), [&](const V &k) { return k.empty() ? 0.0 : sum(k) / (double) k.size(); }, "mean");
  ck(hg::accumulator_first(), [](const V &k) { return k.empty() ? U : k.front(); }, "first"); ck(hg::accumulator_last(), [](const V &k) { return k.empty() ? U : k.back(); }, "last");
  ck(hg::accumulator_argmin(), [](const V &k) { return k.empty() ? -1.0 : (double) (std::min_element(k.begin(), k.end()) - k.begin()); }, "argmin"); ck(hg::accumulator_argmax(), [](const V &k) { return k.empty() ? -1.0 : (double) (std::max_element(k.begin(), k.end()) - k.begin()); }, "argmax");
  auto o = hg::accumulate_graph_edges(g, arr(ew), hg::accumulator_counter()); auto o2 = hg::accumulate_graph_vertices(g, arr(vw), hg::accumulator_counter());
  for (int v = 0; v < q.n; ++v) { REQ(o(v) == (double) oe[v].size(), << "counter edges"); REQ(o2(v) == (double) nb[v].size(), << "counter vertices"); }
  auto o3 = hg::accumulate_at(arr(ix), arr(aw), hg::accumulator_counter()); for (index_t i = 0; i < (index_t) o3.size(); ++i) REQ(o3(i) == (double) std::count(ix.begin(), ix.end(), i), << "counter at");
}); }
