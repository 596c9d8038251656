// random histories of vertex/edge additions, removals and re-targetings against a reference edge list, on both storages
#include "hx.hpp"
using namespace hx;
template<class GR> void history(Ctx &c, const char *kind) {
  c.in << kind << ": ";
  int n = (int) c.rng.in(0, 4); c.put("n", n); GR g(n, c.rng.below(3), c.rng.below(3)); std::vector<std::pair<int, int>> e;
  int ops = (int) c.rng.in(0, 25); if (ops < 4) c.trivial();
  auto pair_ = [](int a, int b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
  for (int o = 0; o <= ops; ++o) {
    if (o) switch (c.rng.below(8)) {
      case 0: { auto v = hg::add_vertex(g); c.in << "addv; "; REQ(v == n); n++; break; }
      case 1: { int k = (int) c.rng.below(3); hg::add_vertices(k, g); c.in << "addv" << k << "; "; n += k; break; }
      case 2: case 3: case 4: if (n) { int a = (int) c.rng.below(n), b = (int) c.rng.below(n); c.in << "add(" << a << "," << b << "); "; auto x = hg::add_edge(a, b, g); e.push_back(pair_(a, b)); REQ((int) hg::index(x, g) == (int) e.size() - 1 && hg::source(x, g) == e.back().first && hg::target(x, g) == e.back().second); } break;
      case 5: if (!e.empty()) { int i = (int) c.rng.below(e.size()); c.in << "rem(" << i << "); "; hg::remove_edge(i, g); e[i] = {-1, -1}; } break;
      case 6: if (!e.empty() && n) { int i = (int) c.rng.below(e.size()), a = (int) c.rng.below(n), b = (int) c.rng.below(n); c.in << "set(" << i << "," << a << "," << b << "); "; hg::set_edge(i, a, b, g); e[i] = pair_(a, b); } break;
      default: if (n) { std::vector<index_t> s, t; int k = (int) c.rng.below(4); for (int i = 0; i < k; ++i) { s.push_back(c.rng.below(n)); t.push_back(c.rng.below(n)); e.push_back(pair_((int) s.back(), (int) t.back())); c.in << "adds(" << s.back() << "," << t.back() << "); "; } hg::add_edges(arr(s), arr(t), g); }
    }
    REQ((int) hg::num_vertices(g) == n && (int) hg::num_edges(g) == (int) e.size());
    int i = 0; for (auto x : hg::edge_iterator(g)) { REQ(hg::source(x, g) == e[i].first && hg::target(x, g) == e[i].second && hg::index(x, g) == i); ++i; } REQ(i == (int) e.size());
    for (i = 0; i < (int) e.size(); ++i) { auto x = hg::edge_from_index(i, g); REQ(hg::source(x, g) == e[i].first && hg::target(x, g) == e[i].second && hg::index(x, g) == i); }
    { hg::array_1d<index_t> s = hg::sources(g), t = hg::targets(g); REQ(s.size() == e.size() && t.size() == e.size()); for (i = 0; i < (int) e.size(); ++i) REQ(s(i) == e[i].first && t(i) == e[i].second); }
    i = 0; for (auto v : hg::vertex_iterator(g)) REQ(v == i++); REQ(i == n);
    std::vector<index_t> all; for (int v = 0; v < n; ++v) all.push_back(v);
    auto D = hg::degree(arr(all), g); REQ((int) D.size() == n);
    for (int v = 0; v < n; ++v) {
      std::multiset<std::pair<int, int>> ex, ou, inn; std::multiset<int> exa, ad;
      for (int k = 0; k < (int) e.size(); ++k) if (e[k].first == v || e[k].second == v) { int w = e[k].first == v ? e[k].second : e[k].first; ex.insert({k, w}); exa.insert(w); }
      for (auto x : hg::out_edge_iterator(v, g)) { REQ(hg::source(x, g) == v); ou.insert({(int) hg::index(x, g), (int) hg::target(x, g)}); }
      for (auto x : hg::in_edge_iterator(v, g)) { REQ(hg::target(x, g) == v); inn.insert({(int) hg::index(x, g), (int) hg::source(x, g)}); }
      for (auto x : hg::adjacent_vertex_iterator(v, g)) ad.insert((int) x);
      REQ(ou == ex, "out edges of " << v); REQ(inn == ex, "in edges of " << v); REQ(ad == exa);
      REQ(hg::degree(v, g) == ex.size() && hg::out_degree(v, g) == ex.size() && hg::in_degree(v, g) == ex.size() && (size_t) D(v) == ex.size());
    }
  }
}
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) { if (c.k % 3 == 0) history<hg::undirected_graph<hg::hash_setS>>(c, "hash_setS"); else history<hg::ugraph>(c, "vecS"); }); }
