// height, extrema, extinction values and dynamics against their definitions
#include "hx.hpp"
#include "higra/attribute/tree_attribute.hpp"
using namespace hx;
static bool eq(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 12); T r(p); hg::tree t = mk(p); bool inc = c.rng.coin(); c.put("increasing", inc);
  std::vector<double> alt(r.n), attr = rand_vals(c.rng, r.n, 9); int rng = 1 + (int) c.rng.below(4);
  alt[r.root] = inc ? (double) c.rng.in(-3, 6) : (double) c.rng.in(-6, 3);
  for (int v = r.root - 1; v >= 0; --v) { double s = (double) c.rng.in(0, rng) / (c.rng.coin(80) ? 1.0 : 2.0); if (c.rng.coin(40)) s = 0; alt[v] = alt[p[v]] + (inc ? -s : s); }
  c.vec("altitudes", alt); c.vec("attribute", attr); auto A = arr(alt), B = arr(attr);
  std::vector<double> md(r.n, 0), h(r.n, 0);
  for (int v = r.nl; v < r.n; ++v) { md[v] = alt[v]; for (int u = r.nl; u < v; ++u) if (r.anc(v, u)) md[v] = inc ? std::min(md[v], alt[u]) : std::max(md[v], alt[u]); h[v] = std::fabs(alt[p[v]] - md[v]); }
  std::vector<char> ext(r.n, 0);
  for (int v = r.nl; v < r.n; ++v) { bool flat = true; for (int u = r.nl; u < v; ++u) if (r.anc(v, u) && alt[u] != alt[v]) flat = false; ext[v] = flat && (v == r.root || alt[p[v]] != alt[v]); }
  auto extinct = [&](const std::vector<double> &a) {
    std::vector<double> e(r.n, 0);
    for (int v = r.root; v >= r.nl; --v) {
      if (v == r.root) { e[v] = a[v]; continue; }
      int best = -1; for (int u : r.ch[p[v]]) if (!r.leaf(u) && (best < 0 || (inc ? md[u] < md[best] : md[u] > md[best]))) best = u;
      e[v] = best == v ? e[p[v]] : a[v];
    }
    for (int l = 0; l < r.nl; ++l) { int q = l; while (q != r.root && !ext[q]) q = (int) p[q]; e[l] = ext[q] ? e[q] : 0; }
    return e; };
  for (int cc = 0; cc < 2; ++cc) {
    t.clear_children(); if (cc) t.compute_children();
    auto H = hg::attribute_height(t, A, inc); auto E = hg::attribute_extrema(t, A); auto X = hg::attribute_extinction_value(t, A, B, inc); auto D = hg::attribute_dynamics(t, A, inc);
    REQ((int) H.size() == r.n && (int) E.size() == r.n && (int) X.size() == r.n && (int) D.size() == r.n);
    auto ex = extinct(attr), ed = extinct(h);
    for (int v = 0; v < r.n; ++v) {
      REQ(eq(H(v), h[v]), << "height of node " << v << " got " << H(v) << " expected " << h[v]); REQ((bool) E(v) == (bool) ext[v], << "extremum " << v << " got " << (bool) E(v));
      REQ(eq(X(v), ex[v]), << "extinction value of node " << v << " got " << X(v) << " expected " << ex[v]); REQ(eq(D(v), ed[v]), << "dynamics of node " << v << " got " << D(v) << " expected " << ed[v]);
    }
  }
}); }
