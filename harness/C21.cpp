// sorting a hierarchy by altitudes
#include "hx.hpp"
#include "higra/algo/tree.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 14); T r(p); hg::tree t(arr(p), c.rng.coin() ? hg::tree_category::component_tree : hg::tree_category::partition_tree); if (c.rng.coin()) t.compute_children();
  int range = (int) c.rng.in(1, 8), mode = (int) c.rng.below(4); std::vector<double> a = rand_vals(c.rng, r.n, range); for (auto &x : a) x *= 0.5; fine(c.rng, a);
  if (mode < 3) { double mx = -1e9; for (int l = 0; l < r.nl; ++l) { if (mode == 0) a[l] = a[0]; mx = std::max(mx, a[l]); } if (mode == 2) std::sort(a.begin(), a.begin() + r.nl);
    for (int v = r.nl; v < r.n; ++v) a[v] = std::max(a[v], mx); for (int v = 0; v < r.n; ++v) a[p[v]] = std::max(a[p[v]], a[v]); }
  c.vec("altitudes", a); bool inc = true, low = true; double ml = -1e9; for (int l = 0; l < r.nl; ++l) ml = std::max(ml, a[l]);
  for (int v = 0; v < r.n; ++v) { if (a[v] > a[p[v]]) inc = false; if (v >= r.nl && a[v] < ml) low = false; }
  std::vector<int> o(r.n); std::iota(o.begin(), o.end(), 0); std::stable_sort(o.begin(), o.end(), [&](int x, int y) { return a[x] < a[y]; });
  try {
    auto R = hg::sort_hierarchy_with_altitudes(t, arr(a)); REQ(inc && low, << "accepted"); const hg::tree &q = R.tree; REQ((int) hg::num_vertices(q) == r.n && (int) hg::num_leaves(q) == r.nl && (int) R.node_map.size() == r.n && q.category() == t.category());
    for (int i = 0; i < r.n; ++i) { REQ((int) R.node_map(i) == o[i], << "node map entry " << i << " is " << o[i]); REQ((int) R.node_map(hg::parent(i, q)) == (int) p[o[i]], << "parent of node " << i); if (i + 1 < r.n) REQ(hg::parent(i, q) > i); }
    if (mode == 0 || mode == 2) for (int l = 0; l < r.nl; ++l) REQ((int) R.node_map(l) == l, << "leaf " << l << " moved");
    bool whole = true; for (double x : a) if (x * 2 != std::floor(x * 2)) whole = false;
    if (whole) { auto S = hg::sort_hierarchy_with_altitudes(t, xt::eval(xt::cast<int>(arr(a) * 2))); for (int i = 0; i < r.n; ++i) REQ(S.node_map(i) == R.node_map(i), << "integer altitudes"); }
  } catch (const std::runtime_error &e) { REQ(!(inc && low), << "rejected: " << e.what()); }
}); }
