// simplify_tree
#include "hx.hpp"
#include "higra/hierarchy/hierarchy_core.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 12); T r(p); hg::tree t(arr(p), c.rng.coin() ? hg::tree_category::component_tree : hg::tree_category::partition_tree); int n = r.n;
  std::vector<char> del(n); int pd = c.rng.coin() ? 50 : 85; for (auto &b : del) b = c.rng.coin(pd); c.vec("deleted", del);
  auto check = [&](const auto &R, bool leaves) {
    std::vector<char> keep(n); int nk = 0; for (int v = 0; v < n; ++v) { keep[v] = v == r.root || !del[v] || (!leaves && r.leaf(v)); nk += keep[v]; }
    const hg::tree &q = R.tree; REQ((int) hg::num_vertices(q) == nk, << "number of nodes " << hg::num_vertices(q) << " expected " << nk); REQ((int) R.node_map.size() == nk); REQ(q.category() == t.category());
    P np(nk); for (int k = 0; k < nk; ++k) np[k] = hg::parent(k, q); REQ(valid_parents(np)); T s(np); REQ((int) hg::num_leaves(q) == s.nl);
    std::map<int, int> inv; for (int k = 0; k < nk; ++k) { int v = (int) R.node_map(k); REQ(v >= 0 && v < n && keep[v] && !inv.count(v), << "node map entry " << k << " is " << v); inv[v] = k; }
    if (!leaves) { REQ((int) s.nl == r.nl); for (int k = 0; k + 1 < nk; ++k) REQ(R.node_map(k) < R.node_map(k + 1)); for (int l = 0; l < r.nl; ++l) REQ(R.node_map(l) == l); }
    for (int k = 0; k < nk; ++k) { int v = (int) R.node_map(k); if (v == r.root) { REQ(k == nk - 1); continue; } int w = (int) p[v]; while (!keep[w]) w = (int) p[w]; REQ((int) R.node_map(np[k]) == w, << "parent of new node " << k); }
  };
  check(hg::simplify_tree(t, arrb(del)), false);
  check(hg::simplify_tree(t, [&](index_t i) { return (bool) del[i]; }), false);
  check(hg::simplify_tree(t, arrb(del), true), true);
}); }
