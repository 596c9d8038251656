// binary labelisation from markers
#include "hx.hpp"
#include "higra/algo/tree.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  P p = get_tree(c, 14, 6); T t(p); hg::tree ht = mk(p); std::vector<int> o(t.nl), b(t.nl); int d = (int) c.rng.in(0, 60), d2 = (int) c.rng.in(0, 40); for (auto &x : o) x = c.rng.coin(d) ? (c.rng.coin(80) ? 1 : (int) c.rng.in(-3, 600)) : 0; for (auto &x : b) x = c.rng.coin(d2) ? (c.rng.coin(80) ? 1 : 256) : 0;
  c.vec("object", o); c.vec("background", b); auto chk = [&](const auto &r) { REQ((int) r.size() == t.nl); for (int l = 0; l < t.nl; ++l) { bool in = false; for (int v = l; v < t.n; ++v) if (t.anc(v, l)) { bool ho = false, hb = false; for (int k = 0; k < t.nl; ++k) if (t.anc(v, k)) { ho |= o[k] != 0; hb |= b[k] != 0; } in |= ho && !hb; } REQ((int) r(l) == (in ? 1 : 0), << "leaf " << l); } };
  chk(hg::binary_labelisation_from_markers(ht, arr(o), arr(b))); std::vector<char> ob(o.size()), bb(b.size()); for (int i = 0; i < t.nl; ++i) { ob[i] = o[i] != 0; bb[i] = b[i] != 0; } chk(hg::binary_labelisation_from_markers(ht, arrb(ob), arrb(bb)));
  std::vector<double> od(o.begin(), o.end()), bd(b.begin(), b.end()); for (auto &x : od) x /= 1024; chk(hg::binary_labelisation_from_markers(ht, arr(od), arr(bd)));
}); }
