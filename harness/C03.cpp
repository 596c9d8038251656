// children, navigation, traversals, find_region, naive lowest common ancestor against the reference relation
#include "hx.hpp"
#include <memory>
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 14); T r(p); hg::tree t = mk(p);
  int rounds = (int) c.rng.below(3); REQ(!t.children_computed());
  for (int i = 0; i < rounds; ++i) { t.compute_children(); if (c.rng.coin()) t.compute_children(); t.clear_children(); REQ(!t.children_computed()); }
  t.compute_children(); REQ(t.children_computed());
  for (int v = 0; v < r.n; ++v) {
    std::vector<int> ch; for (auto x : hg::children_iterator(v, t)) ch.push_back((int) x);
    REQ(ch == r.ch[v]); REQ((int) hg::num_children(v, t) == (int) r.ch[v].size()); REQ((int) hg::degree(v, t) == (int) r.ch[v].size() + (v != r.root));
    for (size_t i = 0; i < r.ch[v].size(); ++i) REQ(hg::child((index_t) i, v, t) == r.ch[v][i]);
    std::vector<int> an, ea; for (auto x : hg::ancestors_iterator(v, t)) { an.push_back((int) x); REQ(an.size() <= p.size()); }
    for (int x = v;; x = (int) p[x]) { ea.push_back(x); if (x == r.root) break; } REQ(an == ea);
    std::multiset<int> adj, ead(r.ch[v].begin(), r.ch[v].end()); if (v != r.root) ead.insert((int) p[v]);
    for (auto x : hg::adjacent_vertex_iterator(v, t)) adj.insert((int) x); REQ(adj == ead);
    size_t no = 0; for (auto e : hg::out_edge_iterator(v, t)) { REQ(hg::source(e, t) == v && ead.count((int) hg::target(e, t)) && hg::index(e, t) == std::min<index_t>(v, hg::target(e, t))); no++; } REQ(no == ead.size());
    no = 0; for (auto e : hg::in_edge_iterator(v, t)) { REQ(hg::target(e, t) == v && ead.count((int) hg::source(e, t))); no++; } REQ(no == ead.size());
  }
  { int i = 0; for (auto e : hg::edge_iterator(t)) { REQ(hg::source(e, t) == i && hg::target(e, t) == p[i] && hg::index(e, t) == i); ++i; } REQ(i == r.n - 1); i = 0; for (auto v : hg::vertex_iterator(t)) REQ(v == i++); REQ(i == r.n); }
  for (int lo = 0; lo < 2; ++lo) for (int ro = 0; ro < 2; ++ro) {
    auto L = lo ? hg::leaves_it::exclude : hg::leaves_it::include; auto R = ro ? hg::root_it::exclude : hg::root_it::include;
    std::vector<int> e, a, b; for (int v = 0; v < r.n; ++v) if (!(lo && r.leaf(v)) && !(ro && v == r.root)) e.push_back(v);
    for (auto x : hg::leaves_to_root_iterator(t, L, R)) { a.push_back((int) x); REQ(a.size() <= p.size()); }
    for (auto x : hg::root_to_leaves_iterator(t, L, R)) { b.push_back((int) x); REQ(b.size() <= p.size()); }
    auto sa = a, sb = b; std::sort(sa.begin(), sa.end()); std::sort(sb.begin(), sb.end());
    REQ(sa == e); REQ(sb == e);
    auto ord = [&](const std::vector<int> &x, bool up) { std::map<int, int> at; for (size_t i = 0; i < x.size(); ++i) at[x[i]] = (int) i; for (int v : x) if (v != r.root && at.count((int) p[v])) REQ(up ? at[v] < at[(int) p[v]] : at[v] > at[(int) p[v]]); };
    ord(a, true); ord(b, false);
  }
  { std::vector<int> a; for (auto x : hg::leaves_iterator(t)) a.push_back((int) x); REQ((int) a.size() == r.nl); for (int i = 0; i < r.nl; ++i) REQ(a[i] == i); }
  // altitudes increasing from children to parent
  std::vector<double> alt(r.n); for (int v = r.n - 1; v >= 0; --v) alt[v] = v == r.root ? (double) c.rng.in(0, 8) : alt[p[v]] - (double) c.rng.below(3); c.vec("alt", alt); auto A = arr(alt);
  std::vector<index_t> q1, q2; std::vector<double> lam; int m = (int) c.rng.in(1, 2 * r.n); for (int i = 0; i < m; ++i) { q1.push_back(c.rng.in(0, r.n - 1)); q2.push_back(c.rng.in(0, r.n - 1)); lam.push_back(c.rng.coin(10) ? -100.0 : (double) c.rng.in(-6, 10)); }
  c.vec("q1", q1); c.vec("q2", q2); c.vec("lambda", lam); auto Q1 = arr(q1), Q2 = arr(q2); auto LA = arr(lam);
  auto fr = hg::find_region(Q1, LA, A, t); auto lc = hg::lowest_common_ancestor(Q1, Q2, t); REQ((int) fr.size() == m && (int) lc.size() == m);
  auto nc = hg::num_children(Q1, t); auto pa = hg::parent(Q1, t); auto lf = hg::is_leaf(Q1, t);
  for (int i = 0; i < m; ++i) {
    int v = (int) q1[i], e = v; for (int x = v;; x = (int) p[x]) { if (alt[x] < lam[i]) e = x; if (x == r.root) break; }
    REQ(fr(i) == e); REQ(hg::find_region(q1[i], lam[i], A, t) == e);
    REQ(lc(i) == r.lca(v, (int) q2[i])); REQ(hg::lowest_common_ancestor(q1[i], q2[i], t) == lc(i));
    REQ((int) nc(i) == (int) r.ch[v].size() && pa(i) == p[v] && lf(i) == r.leaf(v));
  }
  std::vector<index_t> in; for (int v = 0; v < r.n; ++v) if (!r.leaf(v)) in.push_back(v);
  if (!in.empty()) { auto ci = hg::child(0, arr(in), t); for (size_t i = 0; i < in.size(); ++i) REQ(ci(i) == r.ch[in[i]][0]); }
}); }
