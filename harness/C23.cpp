// tree isomorphism: equality of the multisets of leaf sets
#include "hx.hpp"
#include "higra/algo/tree.hpp"
using namespace hx;
static std::multiset<std::set<int>> fam(const P &p) { T t(p); std::multiset<std::set<int>> r; for (int v = 0; v < t.n; ++v) r.insert(t.leaves(v)); return r; }
static P renumber(Rng &r, const P &p) { T t(p); std::vector<int> left(t.n); std::vector<int> rank(t.n), ready; for (int v = 0; v < t.n; ++v) left[v] = (int) t.ch[v].size(); for (int v = 0; v < t.nl; ++v) rank[v] = v; int k = t.nl;
  for (int v = 0; v < t.nl; ++v) if (v != t.root && --left[p[v]] == 0) ready.push_back((int) p[v]);
  while (!ready.empty()) { size_t i = r.below(ready.size()); int v = ready[i]; ready.erase(ready.begin() + i); rank[v] = k++; if (v != t.root && --left[p[v]] == 0) ready.push_back((int) p[v]); }
  P o(t.n); for (int v = 0; v < t.n; ++v) o[rank[v]] = rank[p[v]]; return o; }
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 9, 6), q; int k = (int) c.rng.below(4);
  if (k == 0) q = renumber(c.rng, p); else if (k == 1) q = random_tree(c.rng, 6); else { q = renumber(c.rng, p); T t(q); int v = (int) c.rng.below(t.n), w = (int) c.rng.in(t.nl, t.n - 1); if (w > v && v != t.root && t.nl < t.n) q[v] = w; if (!valid_parents(q)) q = renumber(c.rng, p); if (k == 3 && valid_parents(q)) q = renumber(c.rng, q); }
  if (!valid_parents(q) || T(q).nl != T(q).nl) return; c.vec("other", q); auto a = mk(p), b = mk(q); bool e = T(p).nl == T(q).nl && fam(p) == fam(q); REQ(hg::test_tree_isomorphism(a, b) == e); REQ(hg::test_tree_isomorphism(b, a) == e); REQ(hg::test_tree_isomorphism(a, a)); if (k == 0) REQ(e);
}); }
