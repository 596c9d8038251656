// binarisation of a tree
#include "hx.hpp"
#include "higra/hierarchy/hierarchy_core.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p; auto ok = [](const P &q) { T t(q); for (auto &l : t.ch) if (l.size() == 1) return false; return true; };
  static const std::vector<P> small = [&] { std::vector<P> r; for (auto &q : all_trees(8)) if (ok(q)) r.push_back(q); return r; }();
  if (c.k < small.size()) p = small[c.k]; else { // each internal node joins between 2 and m of the current roots
    int nl = (int) c.rng.in(2, 16), m = (int) c.rng.in(2, nl); bool chain = c.rng.coin(30); p.assign(nl, -1); std::vector<index_t> roots(nl); std::iota(roots.begin(), roots.end(), 0);
    while (roots.size() > 1) { index_t nn = (index_t) p.size(); p.push_back(-1); int k = (int) std::min<index_t>(c.rng.in(2, m), (index_t) roots.size()); for (int i = 0; i < k; ++i) { size_t j = chain && i == 0 ? roots.size() - 1 : c.rng.below(roots.size()); p[roots[j]] = nn; roots.erase(roots.begin() + j); } roots.push_back(nn); }
    p[roots[0]] = roots[0]; }
  c.vec("parents", p); if (p.size() < 3) c.trivial();
  T r(p); hg::tree t(arr(p), c.rng.coin() ? hg::tree_category::component_tree : hg::tree_category::partition_tree); if (c.rng.coin()) t.compute_children();
  auto R = hg::tree_2_binary_tree(t); const hg::tree &q = R.tree; int N = 2 * r.nl - 1;
  REQ((int) hg::num_vertices(q) == N); REQ((int) R.node_map.size() == N); REQ(q.category() == t.category());
  P np(N); for (int k = 0; k < N; ++k) np[k] = hg::parent(k, q); REQ(valid_parents(np)); T s(np); REQ(s.nl == r.nl); REQ((int) hg::num_leaves(q) == r.nl);
  std::set<int> img; for (int k = 0; k < N; ++k) { int v = (int) R.node_map(k); REQ(v >= 0 && v < r.n, << "image of " << k); img.insert(v); REQ(s.leaf(k) ? v == k : s.ch[k].size() == 2, << "node " << k); }
  for (int k = 0; k + 1 < N; ++k) { int v = (int) R.node_map(k), w = (int) R.node_map(np[k]); REQ(w == v || w == (int) p[v], << "parent of node " << k); }
  REQ((int) img.size() == r.n); REQ(R.node_map(N - 1) == r.root);
}); }
