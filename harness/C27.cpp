// basic tree attributes against their definitions
#include "hx.hpp"
#include "higra/attribute/tree_attribute.hpp"
using namespace hx;
static bool eq(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 10); T r(p); hg::tree t = mk(p);
  std::vector<double> alt = rand_vals(c.rng, r.n, 8), la(r.nl), ar(r.n); for (auto &x : la) x = (double) c.rng.in(0, 5); for (auto &x : ar) x = (double) c.rng.in(0, 5);
  c.vec("altitudes", alt); c.vec("leaf_area", la); c.vec("area", ar); index_t skip = c.rng.in(-4, 4); c.put("skip", skip);
  auto A = arr(alt), L = arr(la), R = arr(ar);
  for (int cc = 0; cc < 2; ++cc) {
    t.clear_children(); if (cc) t.compute_children();
    auto a = hg::attribute_area(t, L); auto a1 = hg::attribute_area(t); auto d = hg::attribute_depth(t); auto k = hg::attribute_child_number(t);
    REQ((int) a.size() == r.n && (int) a1.size() == r.n && (int) d.size() == r.n && (int) k.size() == r.n);
    for (int v = 0; v < r.n; ++v) {
      double e = 0, e1 = 0; for (int l : r.leaves(v)) { e += la[l]; e1 += 1; }
      REQ(eq(a(v), e), << "area of node " << v << " got " << a(v) << " expected " << e); REQ((double) a1(v) == e1, << "default area of node " << v << " got " << a1(v) << " expected " << e1);
      REQ((int) d(v) == r.depth(v), << "depth of node " << v << " got " << d(v));
      if (v != r.root) { int e2 = 0; for (int u : r.ch[p[v]]) { if (u == v) break; e2++; } REQ((long) k(v) == e2, << "child number of node " << v << " got " << k(v) << " expected " << e2); }
      else REQ((long) k(v) == -1, << "child number of the root");
    }
    auto s = hg::attribute_sibling(t, skip), s1 = hg::attribute_sibling(t); REQ((int) s.size() == r.n);
    for (int v = 0; v < r.n; ++v) {
      if (v == r.root) { REQ((int) s(v) == v, << "sibling of the root"); continue; }
      auto &ch = r.ch[p[v]]; int n = (int) ch.size(), i = 0; while (ch[i] != v) ++i;
      REQ((int) s(v) == ch[(((i + skip) % n) + n) % n], << "sibling of node " << v << " got " << s(v)); REQ((int) s1(v) == ch[(i + 1) % n], << "next sibling of node " << v << " got " << s1(v));
    }
    auto vo = hg::attribute_volume(t, A, R); REQ((int) vo.size() == r.n); std::vector<double> e(r.n, 0);
    for (int v = r.nl; v < r.n; ++v) { for (int u = r.nl; u < r.n; ++u) if (r.anc(v, u)) e[v] += ar[u] * std::fabs(alt[u] - alt[p[u]]); REQ(eq(vo(v), e[v]), << "volume of node " << v << " got " << vo(v) << " expected " << e[v]); }
    for (int v = 0; v < r.nl; ++v) REQ(vo(v) == 0, << "volume of leaf " << v);
  }
}); }
