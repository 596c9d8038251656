// bipartite tests against the parity of all the closed walks
#include "hx.hpp"
#include "higra/algo/bipartite_graph.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, c.rng.coin(20) ? 24 : 9, (int) c.rng.in(0, 14), c.rng.coin(40));
  if (c.rng.coin(75)) { std::vector<int> side(q.n); for (auto &x : side) x = (int) c.rng.below(2); int keep = c.rng.coin() ? (int) q.e.size() : (int) c.rng.below(q.e.size() + 1); std::vector<std::pair<int, int>> e; std::vector<double> w;   // mostly two-colourable, with at most one edge inside a side
    for (size_t i = 0; i < q.e.size(); ++i) if (side[q.e[i].first] != side[q.e[i].second] || (int) i == keep) { e.push_back(q.e[i]); w.push_back(0); } q.e = e; q.w = w; }
  show(c, q); hg::ugraph g = mk(q); std::set<int> rem; if (c.rng.coin(25)) for (size_t i = 0; i < q.e.size(); ++i) if (c.rng.coin(15)) { hg::remove_edge((hg::index_t) i, g); rem.insert((int) i); }
  c.in << "removed="; for (int x : rem) c.in << x << ","; c.in << "; ";
  std::vector<std::pair<int, int>> e; std::vector<long> src, tgt; for (size_t i = 0; i < q.e.size(); ++i) if (!rem.count((int) i)) { e.push_back(q.e[i]); bool sw = c.rng.coin(); src.push_back(sw ? q.e[i].second : q.e[i].first); tgt.push_back(sw ? q.e[i].first : q.e[i].second); }
  DSU d(2 * q.n); for (auto &x : e) { d.u(2 * x.first, 2 * x.second + 1); d.u(2 * x.first + 1, 2 * x.second); } bool odd = false; for (int v = 0; v < q.n; ++v) if (d.f(2 * v) == d.f(2 * v + 1)) odd = true;
  auto chk = [&](const std::pair<bool, hg::array_1d<unsigned char>> &r, const char *w) { REQ(r.first == !odd, << w << ": answers " << r.first << ", odd cycle " << odd); if (!r.first) { REQ(r.second.size() == 0, << w << ": colours without a colouring"); return; }
    REQ((int) r.second.size() == q.n, << w << ": one colour per vertex"); for (int v = 0; v < q.n; ++v) REQ(r.second(v) <= 1, << w << ": colour of " << v); for (auto &x : e) REQ(r.second(x.first) != r.second(x.second), << w << ": edge (" << x.first << "," << x.second << ") has one colour"); };
  chk(hg::is_bipartite_graph(g), "graph");
  hg::array_1d<hg::index_t> S = hg::array_1d<hg::index_t>::from_shape({src.size()}), T_ = hg::array_1d<hg::index_t>::from_shape({tgt.size()}); for (size_t i = 0; i < src.size(); ++i) { S(i) = src[i]; T_(i) = tgt[i]; }
  chk(hg::is_bipartite_graph(S, T_, (hg::index_t) q.n), "edge list");
  hg::array_1d<int> S3 = xt::cast<int>(S), T3 = xt::cast<int>(T_); chk(hg::is_bipartite_graph(S3, T3, (hg::index_t) q.n), "edge list (int)");
}); }
