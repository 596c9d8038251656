// fast lowest common ancestor queries
#include "hx.hpp"
#include "higra/structure/lca_fast.hpp"
#include "higra/structure/tree_graph.hpp"
using namespace hx;
template<class L> void all(Ctx &c, const L &l, const T &r, const P &p, const hg::tree &t, const char *what) {
  int n = r.n; auto lca = [&](int a, int b) { while (a != b) { if (a < b) a = (int) p[a]; else b = (int) p[b]; } return a; };
  if (n <= 24) { for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { int e = lca(a, b); REQ((int) l.lca(a, b) == e, << what << " lca(" << a << "," << b << ") is " << e << " got " << l.lca(a, b)); } }
  int k = (int) c.rng.in(0, 40); std::vector<long> A(k), B(k); std::vector<std::pair<int, int>> es; hg::ugraph g(n);
  for (int i = 0; i < k; ++i) { A[i] = c.rng.below(n); B[i] = c.rng.below(n); hg::add_edge(A[i], B[i], g); }
  c.vec("a", A); c.vec("b", B); auto x = l.lca(arr(A), arr(B)); auto y = l.lca(hg::edge_iterator(g)); REQ((int) x.size() == k && (int) y.size() == k, << what << " result size");
  for (int i = 0; i < k; ++i) { int e = lca((int) A[i], (int) B[i]); REQ((int) x(i) == e, << what << " pair " << i << " is " << e << " got " << x(i)); REQ((int) y(i) == e, << what << " edge " << i); REQ((int) hg::lowest_common_ancestor(A[i], B[i], t) == e, << "direct " << i); }
}
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p; if (c.rng.coin(5)) { p = random_tree(c.rng, c.rng.coin(30) ? 1500 : 100); c.vec("parents", p); } else p = get_tree(c, 14);
  T r(p); hg::tree t(arr(p)); if (c.rng.coin()) t.compute_children();
  hg::lca_sparse_table a(t); all(c, a, r, p, t, "sparse table");
  hg::lca_sparse_table_block b(t); all(c, b, r, p, t, "blocks");
  int bs = (int) c.rng.in(1, c.rng.coin() ? 4 : 2 * r.n + 3); c.put("block_size", bs); hg::lca_sparse_table_block d(t, (hg::index_t) bs); all(c, d, r, p, t, "blocks of the given size");
}); }
