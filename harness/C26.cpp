// saliency maps
#include "hx.hpp"
#include "higra/hierarchy/hierarchy_core.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p; if (c.rng.coin(5)) { p = random_tree(c.rng, 200); c.vec("parents", p); } else p = get_tree(c, 14);
  T r(p); hg::tree t(arr(p)); int n = r.nl; int m = (int) c.rng.in(0, 30); hg::ugraph g(n); std::vector<std::pair<int, int>> es;
  for (int i = 0; i < m; ++i) { int a = (int) c.rng.below(n), b = (int) c.rng.below(n); hg::add_edge(a, b, g); es.push_back({a, b}); } c.in << "edges="; for (auto &e : es) c.in << "(" << e.first << "," << e.second << ")"; c.in << " ";
  auto v = rand_vals(c.rng, r.n, c.rng.coin() ? 6 : 1000); for (auto &x : v) x *= 0.5; fine(c.rng, v); c.vec("altitudes", v); auto s = hg::saliency_map(g, t, arr(v)); REQ((int) s.size() == m);
  std::vector<int> iv; for (auto x : v) iv.push_back((int) (2 * x)); auto si = hg::saliency_map(g, t, arr(iv)); static_assert(std::is_same<std::decay_t<decltype(si(0))>, int>::value, "value type");
  for (int i = 0; i < m; ++i) { int a = es[i].first, b = es[i].second; while (a != b) { if (a < b) a = (int) p[a]; else b = (int) p[b]; } REQ(s(i) == v[a], << "edge " << i << " is " << v[a] << " got " << s(i)); REQ(si(i) == iv[a], << "edge " << i << " with integers"); }
}); }
