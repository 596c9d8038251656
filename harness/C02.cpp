// tree construction: accepted iff the parent array is valid, and reported data
#include "hx.hpp"
#include <memory>
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p; uint64_t k = c.k; bool small = true; int n = 0;
  // every array of size <= 4 over [-1, n], then mutated random trees
  for (n = 0; n <= 5; ++n) { uint64_t tot = 1; for (int i = 0; i < n; ++i) tot *= (uint64_t) n + 2; if (n == 5) { small = false; break; } if (k < tot) { for (int i = 0; i < n; ++i) { p.push_back((index_t) (k % (n + 2)) - 1); k /= n + 2; } break; } k -= tot; }
  if (!small) {
    p = random_tree(c.rng, 12); int m = (int) c.rng.below(4);
    for (int i = 0; i < m; ++i) { size_t j = c.rng.below(p.size()); int q = (int) c.rng.below(5);
      if (q == 0) p[j] = c.rng.in(-3, (index_t) p.size() + 3); else if (q == 1) std::swap(p[j], p[c.rng.below(p.size())]); else if (q == 2) p[j] += c.rng.in(-1, 1); else if (q == 3 && p.size() > 1) p.erase(p.begin() + j); else p.insert(p.begin() + j, c.rng.in((index_t) j, (index_t) p.size())); }
  }
  c.vec("parents", p); if (p.size() < 2) c.trivial();
  bool ok = true; bool cat = c.rng.coin(); auto ct = cat ? hg::tree_category::component_tree : hg::tree_category::partition_tree;
  auto a = arr(p); std::unique_ptr<hg::tree> t;
  try { if (c.rng.coin()) t.reset(new hg::tree(a, ct)); else { auto b = a; t.reset(new hg::tree(std::move(b), ct)); } } catch (std::exception &) { ok = false; }
  bool expect = valid_parents(p);
  REQ(ok == expect, << (expect ? " valid parent array rejected" : " invalid parent array accepted"));
  if (!ok) return;
  if (p.empty()) { REQ(t->num_vertices() == 0 && hg::num_leaves(*t) == 0); return; }
  T r(p); REQ((int) hg::num_vertices(*t) == r.n && (int) hg::num_leaves(*t) == r.nl && hg::root(*t) == r.root && t->category() == ct && (int) hg::num_edges(*t) == r.n - 1);
  for (int v = 0; v < r.n; ++v) { REQ(hg::parent(v, *t) == r.p[v] && hg::parents(*t)(v) == r.p[v]); REQ(hg::is_leaf(v, *t) == r.leaf(v)); }
  if (c.k % 16 == 0) { hg::array_nd<index_t> m = xt::zeros<index_t>({2, 2}); bool th = false; try { hg::tree x(m); } catch (std::exception &) { th = true; } REQ(th, "a 2d parent array is rejected"); }
}); }
