// optimal energy cuts against the enumeration of all the cuts of the tree
#include "hx.hpp"
#include "higra/algo/tree_energy_optimization.hpp"
using namespace hx;
// least energy over all the cuts (every cut is enumerated), energies of the nodes of a cut combined by f
static double best(const T &r, const std::vector<double> &e, const std::function<double(double, double)> &f, double unit) {
  std::function<std::vector<double>(int)> cuts = [&](int v) { std::vector<double> res{e[v]}; if (v < r.nl) return res;
    std::vector<double> acc{unit}; for (int c = 0; c < v; ++c) if (r.p[c] == v) { auto k = cuts(c); std::vector<double> nx; for (double a : acc) for (double b : k) nx.push_back(f(a, b)); std::sort(nx.begin(), nx.end()); nx.erase(std::unique(nx.begin(), nx.end()), nx.end()); acc = nx; }
    for (double a : acc) res.push_back(a); return res; };
  auto all = cuts(r.root); return *std::min_element(all.begin(), all.end());
}
template<class L> void check(const T &r, const std::vector<double> &e, const L &l, const std::function<double(double, double)> &f, double unit, const char *what) {
  REQ((int) l.size() == r.nl, << what << ": size"); std::map<long, std::set<int>> reg; for (int i = 0; i < r.nl; ++i) { REQ((long) l(i) >= 0, << what << ": leaf " << i << " has no label"); reg[(long) l(i)].insert(i); }
  double tot = unit; for (auto &q : reg) { bool any = false; double b = 0; for (int v = 0; v < r.n; ++v) if (r.leaves(v) == q.second && (!any || e[v] < b)) { any = true; b = e[v]; } REQ(any, << what << ": label " << q.first << " is not the label of a node"); tot = f(tot, b); }
  double o = best(r, e, f, unit); REQ(tot == o, << what << ": the cut has energy " << tot << ", the least energy is " << o);
}
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 11); T r(p); hg::tree t = mk(p); if (c.rng.coin()) t.compute_children();
  std::vector<double> e = rand_vals(c.rng, r.n, 1 + (int) c.rng.below(16)); if (c.rng.coin()) for (int v = r.nl; v < r.n; ++v) e[v] += (double) (r.leaves(v).size()) * (double) c.rng.in(0, 3); for (auto &x : e) x *= 0.5; fine(c.rng, e);
  c.vec("energy", e); auto E = arr(e);
  auto plus = [](double a, double b) { return a + b; }; auto mx = [](double a, double b) { return std::max(a, b); };
  check(r, e, hg::labelisation_optimal_cut_from_energy(t, E), plus, 0, "sum");
  check(r, e, hg::labelisation_optimal_cut_from_energy(t, E, hg::accumulator_sum()), plus, 0, "sum (given)");
  check(r, e, hg::labelisation_optimal_cut_from_energy(t, E, hg::accumulator_max()), mx, std::numeric_limits<double>::lowest(), "max");
  std::vector<int> ei; for (double x : e) ei.push_back((int) (2 * x)); std::vector<double> ed(ei.begin(), ei.end());
  check(r, ed, hg::labelisation_optimal_cut_from_energy(t, arr(ei)), plus, 0, "sum (int)");
}); }
