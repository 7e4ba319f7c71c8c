// Explicit region graph (strictly positive delays), for small automata.
#pragma once
#include "sut.hh"

namespace reg {
using namespace ora;
// A configuration: state and clock values.  Values are integer part * K +
// fractional rank, K = 2 * clocks + 2; equal ranks are equal fractions, rank 0 is
// an integer value, and the positive ranks are even, so odd offsets lie strictly
// between two fractions.  Values beyond the maximum are "big".
struct Graph {
  const TA &a;
  int M = 0, K;
  using C = std::pair<int, std::vector<int>>;
  std::map<C, int> id;
  std::vector<C> confs;
  std::vector<std::vector<std::pair<char, int>>> succ;
  bool overflow = false;
  static constexpr int BIG = 1 << 20;
  explicit Graph(const TA &a, size_t limit = 60000) : a(a), K(2 * a.clocks + 2) {
    for (auto &e : a.edges)
      for (auto &g : e.guard)
        M = std::max(M, g.c);
    for (int s = 0; s < a.n; s++)
      if (a.init[size_t(s)])
        add({s, std::vector<int>(size_t(a.clocks), 0)});
    for (size_t i = 0; i < confs.size(); i++) {
      if (confs.size() > limit) {
        overflow = true;
        return;
      }
      std::set<std::pair<char, int>> out;
      C c = confs[i];
      std::set<std::vector<int>> seen;
      for (int d = 1; d <= (M + 1) * K + 1; d++) {
        std::vector<int> v = c.second;
        for (auto &x : v)
          if (x < BIG && (x += d) > M * K)
            x = BIG;
        if (!seen.insert(norm(v)).second)
          continue;
        for (auto &e : a.edges) {
          if (e.src != c.first)
            continue;
          bool ok = true;
          for (auto &g : e.guard) {
            int64_t x = v[size_t(g.x)];
            ok = ok && (x >= BIG ? (g.op == GT || g.op == GE) : sat(g.op, x, int64_t(g.c) * K));
          }
          if (!ok)
            continue;
          C n{e.dst, v};
          for (int x : e.reset)
            n.second[size_t(x)] = 0;
          n.second = norm(n.second);
          out.insert({e.c, add(n)});
        }
      }
      succ[i].assign(out.begin(), out.end());
    }
  }
  std::vector<int> norm(std::vector<int> v) const {
    std::set<int> f;
    for (int x : v)
      if (x < BIG && x % K)
        f.insert(x % K);
    std::map<int, int> r{{0, 0}};
    int k = 0;
    for (int x : f)
      r[x] = k += 2;
    for (auto &x : v)
      if (x < BIG)
        x = x / K * K + r[x % K];
    return v;
  }
  int add(const C &c) {
    auto it = id.find(c);
    if (it != id.end())
      return it->second;
    int k = int(confs.size());
    id[c] = k;
    confs.push_back(c);
    succ.emplace_back();
    return k;
  }
  // configurations from which an accepting state is reachable (or is accepting)
  std::vector<char> live() const {
    std::vector<std::vector<int>> pred(confs.size());
    std::vector<char> l(confs.size(), 0);
    std::vector<int> todo;
    for (size_t i = 0; i < confs.size(); i++) {
      for (auto &s : succ[i])
        pred[size_t(s.second)].push_back(int(i));
      if (a.acc[size_t(confs[i].first)]) {
        l[i] = 1;
        todo.push_back(int(i));
      }
    }
    while (!todo.empty()) {
      int i = todo.back();
      todo.pop_back();
      for (int p : pred[size_t(i)])
        if (!l[size_t(p)]) {
          l[size_t(p)] = 1;
          todo.push_back(p);
        }
    }
    return l;
  }
};
} // namespace reg
