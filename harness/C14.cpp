// leaf reconstruction, horizontal cut labels, supervertex labels
#include "hx.hpp"
#include "higra/algo/tree.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 12); T r(p); hg::tree t = mk(p); int n = r.n;
  std::vector<double> x = rand_vals(c.rng, n, 9), alt(n, 0); std::vector<char> del(n); int pd = c.rng.coin() ? 50 : 85; for (auto &b : del) b = c.rng.coin(pd);
  int rng = 1 + (int) c.rng.below(3), pz = c.rng.coin() ? 40 : 75;
  for (int v = r.nl; v < n; ++v) { for (int u : r.ch[v]) alt[v] = std::max(alt[v], alt[u]); if (!c.rng.coin(pz)) alt[v] += (double) c.rng.in(1, rng) / (c.rng.coin(80) ? 1.0 : 2.0); }
  double th = c.rng.coin(30) ? alt[c.rng.below(n)] : (double) c.rng.in(-1, 2 * (int) alt[r.root] + 2) / 2.0;
  if (c.rng.coin(15)) { double k = c.rng.coin() ? 0x1p-70 : 0x1p40; for (auto &a : alt) a *= k; if (c.rng.coin(70)) th *= k; if (std::fabs(th) > 1e9) th = 1e9; }   // tiny and huge levels
  c.vec("values", x); c.vec("deleted", del); c.vec("altitudes", alt); c.put("threshold", th);
  auto R = hg::reconstruct_leaf_data(t, arr(x), arrb(del)); REQ((int) R.size() == r.nl);
  for (int l = 0; l < r.nl; ++l) { int k = l; while (k != r.root && del[k]) k = (int) p[k]; REQ(R(l) == x[k], << "reconstruct_leaf_data leaf " << l << " got " << R(l) << " expected " << x[k]); }
  auto A = arr(alt); auto L = hg::labelisation_horizontal_cut_from_threshold(t, A, th); auto Li = hg::labelisation_horizontal_cut_from_threshold(t, A, (int) std::floor(th)); auto S = hg::labelisation_hierarchy_supervertices(t, A);
  REQ((int) L.size() == r.nl && (int) S.size() == r.nl);
  std::set<long> used; long mx = -1;
  for (int i = 0; i < r.nl; ++i) {
    used.insert((long) S(i)); mx = std::max(mx, (long) S(i)); REQ(S(i) >= 0);
    for (int j = 0; j < i; ++j) { double h = alt[r.lca(i, j)];
      REQ((L(i) == L(j)) == (h <= th), << "horizontal cut labels of leaves " << i << " " << j); REQ((Li(i) == Li(j)) == (h <= std::floor(th)), << "horizontal cut labels (integral threshold) of leaves " << i << " " << j);
      REQ((S(i) == S(j)) == (h <= 0), << "supervertex labels of leaves " << i << " " << j); }
  }
  REQ((long) used.size() == mx + 1, << "supervertex labels are not 0..k-1");
  // supervertices_hierarchy (bounded check)
  auto H = hg::supervertices_hierarchy(t, A); auto top = [&](int l) { int k = l; while (k != r.root && alt[p[k]] <= 0) k = (int) p[k]; return k; };
  std::set<int> below; for (int l = 0; l < r.nl; ++l) for (int k = l; k != top(l); k = (int) p[k]) below.insert(k);
  REQ((int) H.supervertex_labelisation.size() == r.nl); REQ(same_partition(tol(H.supervertex_labelisation), tol(S)), << "supervertices_hierarchy labels");
  int nn = (int) H.node_map.size(); REQ(nn == n - (int) below.size(), << "supervertices_hierarchy number of nodes " << nn); REQ((int) hg::num_vertices(H.tree) == nn && (long) hg::num_leaves(H.tree) == mx + 1);
  std::set<int> im; for (int k = 0; k < nn; ++k) { int v = (int) H.node_map(k); REQ(v >= 0 && v < n && !below.count(v) && im.insert(v).second); REQ(v == r.root ? k == nn - 1 : H.node_map(hg::parent(k, H.tree)) == p[v], << "supervertices_hierarchy parent of " << k); }
  for (int l = 0; l < r.nl; ++l) REQ((int) H.node_map(H.supervertex_labelisation(l)) == top(l), << "supervertex of leaf " << l);
}); }
