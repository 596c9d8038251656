// union-find against an explicit partition (array of class labels)
#include "hx.hpp"
#include "higra/structure/unionfind.hpp"
using namespace hx;
int main(int argc, char **argv) { return run(argc, argv, [](Ctx &c) {
  int n = (int) c.rng.in(0, 2 + (int) std::min<uint64_t>(c.k / 50, 40)); c.put("size", n);
  hg::union_find u(n); std::vector<int> cls(n); std::iota(cls.begin(), cls.end(), 0);
  int ops = (int) c.rng.in(1, 4 + 3 * n); if (n < 2) c.trivial();
  for (int o = 0; o < ops; ++o) {
    int kind = (int) c.rng.below(10);
    if (kind == 0 || n == 0) { auto x = u.make_set(); c.in << "make_set;"; REQ(x == n); cls.push_back(n); n++; c.mix("m"); continue; }
    if (kind < 4) { auto x = c.rng.in(0, n - 1); c.in << "find(" << x << ");"; c.mix(x); auto r = u.find(x); REQ(r >= 0 && r < n && cls[r] == cls[x]); continue; }
    auto x = c.rng.in(0, n - 1), y = c.rng.in(0, n - 1); c.in << "link(find " << x << ",find " << y << ");"; c.mix(x); c.mix(y + 1000);
    auto a = u.find(x), b = u.find(y);
    REQ((a == b) == (cls[x] == cls[y]));
    auto r = u.link(a, b); REQ(r == a || r == b); int ca = cls[x], cb = cls[y]; for (auto &z : cls) if (z == cb) z = ca;
    REQ(u.find(x) == r && u.find(y) == r);
  }
  std::vector<long> f; for (int i = 0; i < n; ++i) { auto r = u.find(i); REQ(u.find(r) == r); f.push_back(r); }
  REQ(same_partition(f, std::vector<long>(cls.begin(), cls.end())));
  for (int i = 0; i < n; ++i) REQ(u.find(i) == f[i]);
}); }
