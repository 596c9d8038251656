// argument sorting: the stable sorting permutation, 1-D and 2-D (rows in lexicographic order), default and given comparators
#include "hx.hpp"
#include "higra/sorting.hpp"
using namespace hx;
template<class A, class C> void check(const A &a, const std::vector<std::vector<double>> &rows, C lt, const char *w, bool dflt) {
  A before = a; std::vector<long> ref(rows.size()); std::iota(ref.begin(), ref.end(), 0);
  auto rl = [&](long i, long j) { for (size_t k = 0; k < rows[i].size(); ++k) { if (lt(rows[i][k], rows[j][k])) return true; if (lt(rows[j][k], rows[i][k])) return false; } return false; };
  std::stable_sort(ref.begin(), ref.end(), rl);
  auto run1 = [&](const auto &s, bool stable) { auto r = tol(s); REQ(r.size() == ref.size(), << w << " size"); if (stable) REQ(r == ref, << w << " stable_arg_sort"); auto q = r; std::sort(q.begin(), q.end()); for (size_t i = 0; i < q.size(); ++i) REQ(q[i] == (long) i, << w << " not a permutation"); for (size_t i = 1; i < r.size(); ++i) REQ(!rl(r[i], r[i - 1]), << w << " not sorted"); REQ(a == before, << w << " input modified"); };
  if (dflt) { run1(hg::stable_arg_sort(a), true); run1(hg::arg_sort(a), false); } else { run1(hg::stable_arg_sort(a, lt), true); run1(hg::arg_sort(a, lt), false); }
}
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  size_t n = (size_t) c.rng.in(1, c.rng.coin(20) ? 60 : 9), d = (size_t) c.rng.in(1, 3); int range = (int) c.rng.in(1, 8);
  auto v = rand_vals(c.rng, n * d, range); fine(c.rng, v); c.put("dim", d); c.vec("values", v); if (n < 2) c.trivial();
  std::vector<std::vector<double>> r1, r2; hg::array_2d<double> m = hg::array_2d<double>::from_shape({n, d}); hg::array_1d<index_t> iv = hg::array_1d<index_t>::from_shape({n}); std::vector<std::vector<double>> ri;
  std::vector<double> v1; for (size_t i = 0; i < n; ++i) { v1.push_back(v[i * d] / 2); r1.push_back({v1.back()}); iv(i) = (index_t) v[i * d]; ri.push_back({(double) iv(i)}); r2.push_back({}); for (size_t k = 0; k < d; ++k) { m(i, k) = v[i * d + k]; r2.back().push_back(m(i, k)); } }
  auto a = arr(v1); check(a, r1, std::less<double>(), "1d", true); check(a, r1, std::greater<double>(), "1d greater", false); check(a, r1, [](double x, double y) { return std::fabs(x) < std::fabs(y); }, "1d abs", false);
  check(iv, ri, std::less<double>(), "1d int", true); check(m, r2, std::less<double>(), "2d", true); check(m, r2, std::greater<double>(), "2d greater", false);
}); }
