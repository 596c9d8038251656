// Executable postconditions: bounded search for failing inputs on the real, compiled code, and replay of a found input.
#pragma once
#include "higra/graph.hpp"
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <set>
#include <map>
#include <array>
#include <algorithm>
#include <functional>
#include <numeric>
#include <cmath>
#include <chrono>
#include <unordered_set>
#include <signal.h>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace hx {
using hg::index_t;
struct Rng {
  uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  index_t in(index_t a, index_t b) { return a + (index_t) below((uint64_t) (b - a + 1)); }
  bool coin(int p = 50) { return (int) below(100) < p; }
};
struct Fail { std::string msg; };
struct Ctx {
  Rng rng{1}; uint64_t k = 0, seed = 1; std::ostringstream in; uint64_t h = 1469598103934665603ull; bool nontriv = true;
  template<class T> void put(const char *name, const T &v) { in << name << "=" << v << "; "; mix(v); }
  template<class T> void vec(const char *name, const T &v) { in << name << "=["; size_t i = 0; for (auto x : v) { in << (i++ ? "," : "") << +x; mix(x); } in << "]; "; }
  template<class T> void mix(const T &x) { std::ostringstream o; o << x; for (char c : o.str()) h = (h ^ (unsigned char) c) * 1099511628211ull; h = (h ^ 0x7f) * 1099511628211ull; }
  void trivial() { nontriv = false; }
};
#define REQ(c, ...) do { if (!(c)) { std::ostringstream o_; o_ << "violated: " #c " " __VA_ARGS__; throw hx::Fail{o_.str()}; } } while (0)

// ---------------------------------------------------------------- trees
using P = std::vector<index_t>;
inline bool valid_parents(const P &p) {
  size_t n = p.size(); if (n == 0) return true;
  if (p[n - 1] != (index_t) n - 1) return false;
  std::vector<int> nc(n, 0);
  for (size_t v = 0; v + 1 < n; ++v) { if (p[v] <= (index_t) v || p[v] >= (index_t) n) return false; nc[p[v]]++; }
  bool internal = false;
  for (size_t v = 0; v < n; ++v) { if (nc[v]) internal = true; else if (internal) return false; }
  return true;
}
// all valid parent arrays with at most N nodes (in order of size)
inline const std::vector<P> &all_trees(int N = 6) {
  static std::map<int, std::vector<P>> memo; auto &r = memo[N]; if (!r.empty()) return r;
  for (int n = 1; n <= N; ++n) {
    P p(n, 0); p[n - 1] = n - 1;
    std::function<void(int)> rec = [&](int v) { if (v == n - 1) { if (valid_parents(p)) r.push_back(p); return; }
      for (int q = v + 1; q < n; ++q) { p[v] = q; rec(v + 1); } };
    rec(0);
  }
  return r;
}
inline P random_tree(Rng &r, int maxleaves, int mode = -1) {
  int nl = (int) r.in(1, maxleaves); if (nl == 1) { int ch = (int) r.in(0, 3); P p; for (int i = 0; i <= ch; ++i) p.push_back(std::min(i + 1, ch)); return p; }
  if (mode < 0) mode = (int) r.below(4);
  // roots = current maximal nodes
  P p(nl, -1); std::vector<index_t> roots(nl); std::iota(roots.begin(), roots.end(), 0);
  while (roots.size() > 1) {
    index_t nn = (index_t) p.size(); p.push_back(-1);
    int k = mode == 0 ? 2 : (mode == 3 ? (int) r.in(1, 3) : (int) r.in(2, std::min<index_t>(4, (index_t) roots.size())));
    if (k > (int) roots.size()) k = (int) roots.size();
    if (k == 1 && r.coin(60)) k = 2;
    for (int i = 0; i < k; ++i) { size_t j = mode == 1 ? (i == 0 ? roots.size() - 1 : r.below(roots.size())) : r.below(roots.size()); p[roots[j]] = nn; roots.erase(roots.begin() + j); }
    roots.push_back(nn);
  }
  index_t root = roots[0];
  if (mode == 3 && r.coin(30)) { p.push_back(-1); p[root] = (index_t) p.size() - 1; root = (index_t) p.size() - 1; }
  p[root] = root;
  return p;
}
inline P get_tree(Ctx &c, int maxleaves = 12, int exN = 6) {
  auto &ex = all_trees(exN);
  P p = c.k < ex.size() ? ex[c.k] : random_tree(c.rng, 2 + (int) std::min<uint64_t>((c.k - ex.size()) / 40, (uint64_t) maxleaves));
  c.vec("parents", p); if (p.size() < 3) c.trivial();
  return p;
}
template<class V> inline hg::array_1d<typename V::value_type> arr(const V &v) { hg::array_1d<typename V::value_type> a = hg::array_1d<typename V::value_type>::from_shape({v.size()}); for (size_t i = 0; i < v.size(); ++i) a(i) = v[i]; return a; }
inline hg::array_1d<bool> arrb(const std::vector<char> &v) { hg::array_1d<bool> a = hg::array_1d<bool>::from_shape({v.size()}); for (size_t i = 0; i < v.size(); ++i) a(i) = v[i] != 0; return a; }
inline hg::tree mk(const P &p) { return hg::tree(arr(p)); }
struct T {            // reference view of a tree
  P p; int n, nl, root; std::vector<std::vector<int>> ch;
  explicit T(const P &q) : p(q), n((int) q.size()), root((int) q.size() - 1) { ch.resize(n); for (int v = 0; v < root; ++v) ch[p[v]].push_back(v); nl = 0; for (int v = 0; v < n; ++v) if (ch[v].empty()) nl++; }
  bool leaf(int v) const { return ch[v].empty(); }
  bool anc(int a, int v) const { while (v < a) v = (int) p[v]; return v == a; }       // a ancestor-or-self of v
  int lca(int a, int b) const { while (a != b) { if (a < b) a = (int) p[a]; else b = (int) p[b]; } return a; }
  std::set<int> leaves(int v) const { std::set<int> s; for (int l = 0; l < nl; ++l) if (anc(v, l)) s.insert(l); return s; }
  int depth(int v) const { int d = 0; while (v != root) { v = (int) p[v]; d++; } return d; }
};
// ---------------------------------------------------------------- graphs
struct G { int n; std::vector<std::pair<int, int>> e; std::vector<double> w; };
inline G random_graph(Rng &r, int maxn, int maxe, bool connected, bool loops = true, bool multi = true, int minn = 1) {
  G g; g.n = (int) r.in(minn, maxn); std::set<std::pair<int, int>> seen;
  auto add = [&](int a, int b) { if (a == b && !loops) return; auto q = std::minmax(a, b); if (!multi && !seen.insert(q).second) return; g.e.push_back({a, b}); };
  if (connected) { for (int v = 1; v < g.n; ++v) { int u = (int) r.below(v); if (r.coin()) add(u, v); else add(v, u); } }
  int ne = (int) r.in(0, maxe); for (int i = 0; i < ne; ++i) add((int) r.below(g.n), (int) r.below(g.n));
  for (size_t i = g.e.size(); i > 1; --i) std::swap(g.e[i - 1], g.e[r.below(i)]);
  if (r.coin(50)) { std::vector<int> q(g.n); std::iota(q.begin(), q.end(), 0); for (int i = g.n; i > 1; --i) std::swap(q[i - 1], q[r.below(i)]); for (auto &x : g.e) x = {q[x.first], q[x.second]}; }
  int range = (int) r.in(1, 1 + (int) g.e.size()); for (size_t i = 0; i < g.e.size(); ++i) g.w.push_back((double) r.in(0, range) / (r.coin(90) ? 1.0 : 2.0));
  if (r.coin(12)) for (auto &x : g.w) x += (double) r.in(0, 3) * 0x1p-34;   // levels that differ by less than a single precision step
  if (r.coin(12)) { double k = r.coin() ? 0x1p-70 : 0x1p20; for (auto &x : g.w) x *= k; }   // tiny and huge levels (exact)
  return g;
}
inline hg::ugraph mk(const G &g) { hg::ugraph u(g.n); for (auto &e : g.e) hg::add_edge(e.first, e.second, u); return u; }
inline void show(Ctx &c, const G &g) { c.put("n", g.n); c.in << "edges="; for (auto &e : g.e) { c.in << "(" << e.first << "," << e.second << ")"; c.mix(e.first); c.mix(e.second); } c.in << "; "; c.vec("w", g.w); if (g.n < 2 || g.e.empty()) c.trivial(); }
struct DSU { std::vector<int> p; explicit DSU(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int f(int x) { while (p[x] != x) x = p[x]; return x; } bool u(int a, int b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; } };
inline bool same_partition(const std::vector<long> &a, const std::vector<long> &b) {
  if (a.size() != b.size()) return false; std::map<long, long> f, g;
  for (size_t i = 0; i < a.size(); ++i) { auto x = f.emplace(a[i], b[i]), y = g.emplace(b[i], a[i]); if (x.first->second != b[i] || y.first->second != a[i]) return false; }
  return true;
}
template<class A> inline std::vector<long> tol(const A &a) { std::vector<long> r; for (auto x : a) r.push_back((long) x); return r; }
template<class A> inline std::vector<double> tod(const A &a) { std::vector<double> r; for (auto x : a) r.push_back((double) x); return r; }
inline std::vector<double> rand_vals(Rng &r, size_t n, int range) { std::vector<double> v(n); for (auto &x : v) x = (double) r.in(-range / 2, range); return v; }

// values that single precision cannot represent (sums of a few of them remain exact in double precision)
inline void fine(Rng &r, std::vector<double> &v) { if (r.coin(25)) for (auto &x : v) x += (double) r.in(0, 3) * 0x1p-34; if (r.coin(12)) { double k = r.coin() ? 0x1p-70 : 0x1p20; for (auto &x : v) x *= k; } }

// ---------------------------------------------------------------- driver
static Ctx *cur = nullptr;
inline void die(const char *why) { if (cur) { printf("FAIL case=%llu seed=%llu\nMSG %s\nINPUT %s\n", (unsigned long long) cur->k, (unsigned long long) cur->seed, why, cur->in.str().c_str()); fflush(stdout); } }
inline void on_death() { die("crash or memory error"); }
extern "C" __attribute__((used)) void __ubsan_on_report(void) { die("undefined behaviour (see stderr)"); }
inline void on_alarm(int) { die("the call does not return within the time allowed"); _exit(1); }
inline void on_segv(int) { die("crash"); _exit(1); }
inline int run(int argc, char **argv, const std::function<void(Ctx &)> &f) {
  uint64_t seed = 1; double secs = 10; long long only = -1; uint64_t maxc = ~0ull;
  for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i]; if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10); if (a == "--seconds") secs = atof(argv[i + 1]); if (a == "--case") only = atoll(argv[i + 1]); if (a == "--max") maxc = strtoull(argv[i + 1], 0, 10); }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  signal(SIGALRM, on_alarm); signal(SIGABRT, on_segv);
  auto t0 = std::chrono::steady_clock::now(); std::unordered_set<uint64_t> seen; uint64_t cases = 0, nt = 0; std::vector<std::string> samples;
  for (uint64_t k = only >= 0 ? (uint64_t) only : 0; k < maxc; ++k) {
    Ctx c; c.k = k; c.seed = seed; c.rng = Rng(seed * 1000003 + k); cur = &c; alarm(20);
    try { f(c); }
    catch (Fail &x) { die(x.msg.c_str()); return 1; }
    catch (std::exception &x) { die((std::string("unexpected exception: ") + x.what()).c_str()); return 1; }
    c.mix(c.in.str()); cases++; if (seen.insert(c.h).second && c.nontriv) { nt++; if (samples.size() < 3 && nt % 97 == 5) samples.push_back(c.in.str().substr(0, 400)); }
    if (only >= 0) { printf("PASS case=%llu\nINPUT %s\n", (unsigned long long) k, c.in.str().c_str()); return 0; }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
  }
  alarm(0); cur = nullptr;
  printf("DONE cases=%llu distinct=%llu\n", (unsigned long long) cases, (unsigned long long) nt);
  for (auto &s : samples) printf("SAMPLE %s\n", s.c_str());
  return 0;
}
}
