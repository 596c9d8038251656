// component trees against level-set connected components
#include "hx.hpp"
#include "higra/hierarchy/component_tree.hpp"
using namespace hx;
template<class R> static void check(const G &g, const std::vector<double> &w, const R &r, int sg, const char *what) {
  const auto &t = r.tree; const auto &a = r.altitudes; int n = g.n, m = (int) hg::num_vertices(t); auto h = [&](int x) { return sg * (double) a(x); };
  REQ((int) hg::num_leaves(t) == n && (int) a.size() == m && m > n, << what << ": leaves"); P p; for (int v = 0; v < m; ++v) p.push_back(hg::parent(v, t)); REQ(valid_parents(p), << what << ": not a tree"); REQ(t.category() == hg::tree_category::component_tree);
  T T_(p); for (int v = 0; v < n; ++v) REQ((double) a(v) == w[v], << what << ": altitude of leaf " << v);
  for (int v = 0; v + 1 < m; ++v) { REQ(h((int) p[v]) <= h(v), << what << ": altitude of node " << v << " and of its parent"); if (v >= n) REQ(h((int) p[v]) < h(v), << what << ": inner node " << v << " at the altitude of its parent"); }
  for (int x = n; x < m; ++x) { bool own = false; for (int l = 0; l < n; ++l) if (p[l] == x && (double) a(l) == (double) a(x)) own = true; REQ(own, << what << ": inner node " << x << " without a leaf of its altitude"); }
  std::set<double> lv(w.begin(), w.end());
  for (double lam : lv) { DSU d(n); for (auto &e : g.e) if (sg * w[e.first] >= sg * lam && sg * w[e.second] >= sg * lam) d.u(e.first, e.second);
    std::vector<int> top(n); for (int v = 0; v < n; ++v) { int x = (int) p[v]; if (h(x) < sg * lam) x = -1; else while (p[x] != x && h((int) p[x]) >= sg * lam) x = (int) p[x]; top[v] = x; }
    for (int x = 0; x < n; ++x) { REQ((top[x] >= 0) == (sg * w[x] >= sg * lam), << what << ": vertex " << x << " at level " << lam); for (int y = 0; y < x; ++y) if (top[x] >= 0 && top[y] >= 0) REQ((top[x] == top[y]) == (d.f(x) == d.f(y)), << what << ": vertices " << x << "," << y << " at level " << lam); } }
}
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G g = random_graph(c.rng, 3 + (int) std::min<uint64_t>(c.k / 60, 11), 8, true); int range = (int) c.rng.in(1, 7); std::vector<double> w = rand_vals(c.rng, g.n, range); if (c.rng.coin()) for (auto &x : w) x *= 0.5; fine(c.rng, w);
  show(c, g); c.vec("vertex weights", w); auto u = mk(g);
  check(g, w, hg::component_tree_max_tree(u, arr(w)), 1, "max tree"); check(g, w, hg::component_tree_min_tree(u, arr(w)), -1, "min tree");
  std::vector<int> wi; for (double x : w) wi.push_back((int) (2 * x)); std::vector<double> wd(wi.begin(), wi.end());
  check(g, wd, hg::component_tree_max_tree(u, arr(wi)), 1, "max tree (int)"); check(g, wd, hg::component_tree_min_tree(u, arr(wi)), -1, "min tree (int)");
  std::vector<unsigned char> wu; for (int x : wi) wu.push_back((unsigned char) (x + 100)); std::vector<double> wb(wu.begin(), wu.end()); check(g, wb, hg::component_tree_min_tree(u, arr(wu)), -1, "min tree (uint8)"); check(g, wb, hg::component_tree_max_tree(u, arr(wu)), 1, "max tree (uint8)");
  if (c.k % 4 == 0) { int hh = (int) c.rng.in(1, 5), ww = (int) c.rng.in(1, 5); hg::ugraph q(hh * ww); G gg; gg.n = hh * ww; for (int y = 0; y < hh; ++y) for (int x = 0; x < ww; ++x) { if (x + 1 < ww) gg.e.push_back({y * ww + x, y * ww + x + 1}); if (y + 1 < hh) gg.e.push_back({y * ww + x, y * ww + x + ww}); }
    auto z = rand_vals(c.rng, gg.n, range); c.vec("image", z); auto uu = mk(gg); check(gg, z, hg::component_tree_max_tree(uu, arr(z)), 1, "max tree of an image"); check(gg, z, hg::component_tree_min_tree(uu, arr(z)), -1, "min tree of an image"); }
}); }
