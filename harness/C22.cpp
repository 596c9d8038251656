// sub tree extraction
#include "hx.hpp"
#include "higra/algo/tree.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 14); T r(p); hg::tree t(arr(p), c.rng.coin() ? hg::tree_category::component_tree : hg::tree_category::partition_tree); if (c.rng.coin()) t.compute_children();
  int root = (int) c.rng.below(r.n); if (c.rng.coin(30)) root = r.root; c.put("root", root);
  auto R = hg::sub_tree(t, root); const hg::tree &q = R.tree; std::vector<int> d; for (int v = 0; v < r.n; ++v) if (r.anc(root, v)) d.push_back(v);
  REQ(hg::num_vertices(q) == d.size()); REQ(R.node_map.size() == d.size()); REQ(q.category() == t.category());
  for (size_t k = 0; k < d.size(); ++k) REQ((int) R.node_map(k) == d[k], << "node map entry " << k);
  P np(d.size()); for (size_t k = 0; k < d.size(); ++k) np[k] = hg::parent(k, q); REQ(valid_parents(np)); T s(np); REQ((int) hg::num_leaves(q) == s.nl);
  for (size_t k = 0; k + 1 < d.size(); ++k) REQ(d[np[k]] == (int) p[d[k]], << "parent of node " << k);
}); }
