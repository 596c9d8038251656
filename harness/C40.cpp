// watershed cut: basins of the minima by steepest descent, from their definition
#include "hx.hpp"
#include "higra/algo/watershed.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  G q = random_graph(c.rng, c.rng.coin(20) ? 30 : 9, c.rng.coin(20) ? 50 : 16, c.rng.coin(60)); if (c.rng.coin()) for (auto &x : q.w) x = (double) c.rng.in(0, c.rng.coin() ? 1 : 3); if (c.rng.coin(10)) for (auto &x : q.w) x -= 5;
  show(c, q); hg::ugraph g = mk(q); std::set<int> rem; if (c.rng.coin(15)) for (size_t i = 0; i < q.e.size(); ++i) if (c.rng.coin(15)) { hg::remove_edge((hg::index_t) i, g); rem.insert((int) i); }
  c.in << "removed="; for (int x : rem) c.in << x << ","; c.in << "; ";
  bool integral = true; for (double x : q.w) if (x != std::floor(x)) integral = false;
  std::vector<long> lab; if (integral && c.rng.coin()) { std::vector<int> wi(q.w.begin(), q.w.end()); lab = tol(hg::labelisation_watershed(g, arr(wi))); } else lab = tol(hg::labelisation_watershed(g, arr(q.w)));
  int n = q.n; REQ((int) lab.size() == n, << "one label per vertex"); long K = 0; for (long x : lab) { REQ(x >= 1, << "label " << x); K = std::max(K, x); }
  std::vector<std::vector<int>> st(n); std::vector<double> f(n, INFINITY); for (size_t i = 0; i < q.e.size(); ++i) if (!rem.count((int) i)) { f[q.e[i].first] = std::min(f[q.e[i].first], q.w[i]); f[q.e[i].second] = std::min(f[q.e[i].second], q.w[i]); }
  for (size_t i = 0; i < q.e.size(); ++i) if (!rem.count((int) i)) { int a = q.e[i].first, b = q.e[i].second; if (q.w[i] == f[a]) st[a].push_back(b); if (q.w[i] == f[b]) st[b].push_back(a); }
  auto reach = [&](int v, bool in) { std::vector<char> s(n, 0); std::vector<int> t{v}; s[v] = 1; while (!t.empty()) { int x = t.back(); t.pop_back(); for (int y : st[x]) if (!s[y] && (!in || lab[y] == lab[v])) { s[y] = 1; t.push_back(y); } } return s; };
  std::vector<std::vector<char>> R, I; for (int v = 0; v < n; ++v) { R.push_back(reach(v, false)); I.push_back(reach(v, true)); }
  std::vector<int> rep(K + 1, -1); std::vector<char> mini(n, 0);
  for (int v = 0; v < n; ++v) { bool m = true; for (int u = 0; u < n; ++u) if (R[v][u] && !R[u][v]) m = false; mini[v] = m; if (m) { if (rep[lab[v]] < 0) rep[lab[v]] = v; else REQ(R[rep[lab[v]]][v], << "two minima, with the vertices " << rep[lab[v]] << " and " << v << ", labelled " << lab[v]); } }
  for (long l = 1; l <= K; ++l) REQ(rep[l] >= 0, << "no minimum labelled " << l);
  for (int v = 0; v < n; ++v) { REQ(I[v][rep[lab[v]]], << "vertex " << v << " labelled " << lab[v] << ": no path of steepest descent to the minimum of its region inside it"); if (mini[v]) for (int u = 0; u < n; ++u) if (R[v][u]) REQ(lab[u] == lab[v], << "a minimum with two labels, at " << u << " and " << v); }
}); }
