// grid embeddings: grid <-> linear coordinates
#include "hx.hpp"
#include "higra/structure/embedding.hpp"
using namespace hx;
template<int d> static void one(Ctx &c) {
  using E = hg::embedding_internal::embedding_grid<d>; using Pt = hg::point<index_t, d>;
  std::vector<index_t> s(d); for (auto &x : s) x = c.rng.in(1, d == 1 ? 40 : d == 2 ? 9 : 5); c.put("dim", d); c.vec("shape", s);
  E e(s), e2(arr(s)); index_t n = 1; for (auto x : s) n *= x; if (n < 2) c.trivial();
  REQ((index_t) e.size() == n && (index_t) e2.size() == n && (int) e.dimension() == d && e.shape().size() == d); for (int i = 0; i < d; ++i) REQ(e.shape()(i) == s[i] && e2.shape()(i) == s[i]);
  hg::array_1d<index_t> all = xt::arange<index_t>(n); auto G = e.lin2grid(all); REQ(G.dimension() == 2 && (index_t) G.shape()[0] == n && (int) G.shape()[1] == d); auto L = xt::eval(e.grid2lin(G)); auto C = xt::eval(e.contains(G)); REQ((index_t) L.size() == n && (index_t) C.size() == n);
  hg::array_2d<int> A = xt::reshape_view(xt::arange<int>((int) n), {(size_t) s[0], (size_t) (n / s[0])}); auto G2 = e.lin2grid(A); REQ(G2.dimension() == 3 && (int) G2.shape()[2] == d && (index_t) G2.shape()[0] == s[0]); auto L2 = xt::eval(e.grid2lin(G2)); REQ(L2.dimension() == 2);
  std::vector<index_t> x(d, 0);   // row major enumeration
  for (index_t i = 0; i < n; ++i) {
    Pt p = e.lin2grid(i), q; for (int k = 0; k < d; ++k) { REQ((index_t) p[k] == x[k], << "coordinate " << k << " of index " << i << " is " << x[k]); q[k] = x[k]; REQ((index_t) G(i, k) == x[k] && (index_t) G2(i / (n / s[0]), i % (n / s[0]), k) == x[k]); }
    REQ((index_t) e.grid2lin(q) == i && (index_t) e2.grid2lin(q) == i && (index_t) e.grid2lin(x) == i && (index_t) L(i) == i && (index_t) L2(i / (n / s[0]), i % (n / s[0])) == i); REQ(e.contains(q) && e.contains(x) && C(i) != 0);
    for (int k = d - 1; k >= 0; --k) { if (++x[k] < s[k]) break; x[k] = 0; }
  }
  hg::array_2d<index_t> Q = hg::array_2d<index_t>::from_shape({8, (size_t) d}); std::vector<char> ex;
  for (int t = 0; t < 8; ++t) { std::vector<index_t> y(d); Pt q; bool in = true; for (int k = 0; k < d; ++k) { y[k] = c.rng.coin(70) ? c.rng.in(0, s[k] - 1) : c.rng.in(-2, s[k] + 1); q[k] = y[k]; Q(t, k) = y[k]; in = in && y[k] >= 0 && y[k] < s[k]; } ex.push_back(in);
    c.vec("point", y); REQ((bool) e.contains(q) == in, << "point " << t); REQ((bool) e.contains(y) == in); if (d == 2) REQ((bool) e.contains({y[0], y[1]}) == in); }
  auto CQ = xt::eval(e.contains(Q)); for (int t = 0; t < 8; ++t) REQ((CQ(t) != 0) == (ex[t] != 0), << "array of points, point " << t);
  if (d == 2) { E f({s[0], s[1]}); REQ((index_t) f.size() == n); index_t a = c.rng.in(0, s[0] - 1), b = c.rng.in(0, s[1] - 1); REQ((index_t) f.grid2lin({a, b}) == a * s[1] + b); }
  std::vector<index_t> bad = s; if (c.rng.coin()) bad[c.rng.below(d)] = c.rng.in(-1, 0); else bad.push_back(2); bool thrown = false; try { E b(bad); } catch (const std::runtime_error &) { thrown = true; } REQ(thrown, << "bad shape accepted");
}
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) { switch (c.k % 5) { case 0: one<1>(c); break; case 1: case 2: one<2>(c); break; case 3: one<3>(c); break; default: one<4>(c); } }); }
