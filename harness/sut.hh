// Conversions between the reference models and the code under test.
#pragma once
#include "gen.hh"
#ifndef BOOST_GRAPH_USE_SPIRIT_PARSER
#define BOOST_GRAPH_USE_SPIRIT_PARSER
#endif
#include "monaa.hh"

namespace sut {
using namespace ora;

// Build the library's automaton.  `perm` permutes the allocation order, so that
// pointer order and state order differ.
inline void build(const TA &a, TimedAutomaton &out, const std::vector<int> &perm) {
  out.states.assign(size_t(a.n), nullptr);
  out.initialStates.clear();
  std::vector<std::shared_ptr<TAState>> pool;
  for (int i = 0; i < a.n; i++)
    pool.push_back(std::make_shared<TAState>());
  for (int i = 0; i < a.n; i++) {
    out.states[size_t(i)] = pool[size_t(perm[size_t(i)])];
    out.states[size_t(i)]->isMatch = a.acc[size_t(i)];
  }
  for (int i = 0; i < a.n; i++)
    if (a.init[size_t(i)])
      out.initialStates.push_back(out.states[size_t(i)]);
  out.maxConstraints.assign(size_t(a.clocks), 0);
  for (auto &e : a.edges) {
    TATransition t;
    t.target = out.states[size_t(e.dst)].get();
    for (int x : e.reset)
      t.resetVars.push_back(ClockVariables(x));
    for (auto &g : e.guard) {
      Constraint c{ClockVariables(g.x),
                   g.op == LT   ? Constraint::Order::lt
                   : g.op == LE ? Constraint::Order::le
                   : g.op == GE ? Constraint::Order::ge
                                : Constraint::Order::gt,
                   g.c};
      t.guard.push_back(c);
      out.maxConstraints[size_t(g.x)] = std::max(out.maxConstraints[size_t(g.x)], g.c);
    }
    out.states[size_t(e.src)]->next[e.c].push_back(t);
  }
}
inline std::vector<int> permutation(pbt::Src &s, int n) {
  std::vector<int> p;
  for (int i = 0; i < n; i++)
    p.push_back(i);
  for (int i = n - 1; i > 0; i--)
    std::swap(p[size_t(i)], p[size_t(i) - s.below(uint32_t(i + 1))]);
  return p;
}

// Read the library's automaton back.
inline TA readBack(const TimedAutomaton &in, std::string &err) {
  TA a;
  a.n = int(in.states.size());
  a.clocks = int(in.clockSize());
  std::map<const TAState *, int> id;
  for (int i = 0; i < a.n; i++) {
    id[in.states[size_t(i)].get()] = i;
    a.acc.push_back(in.states[size_t(i)]->isMatch);
    a.init.push_back(0);
  }
  for (auto &s : in.initialStates) {
    auto it = id.find(s.get());
    if (it == id.end()) {
      err = "an initial state is not among the states";
      return a;
    }
    a.init[size_t(it->second)] = 1;
  }
  for (int i = 0; i < a.n; i++)
    for (auto &kv : in.states[size_t(i)]->next)
      for (auto &e : kv.second) {
        if (!e.target)
          continue;
        auto it = id.find(e.target);
        if (it == id.end()) {
          err = "a transition leads to a state that is not in the automaton";
          return a;
        }
        Edge x{i, it->second, kv.first, {}, {}};
        for (auto &g : e.guard) {
          x.guard.push_back({int(g.x),
                             g.odr == Constraint::Order::lt   ? LT
                             : g.odr == Constraint::Order::le ? LE
                             : g.odr == Constraint::Order::ge ? GE
                                                              : GT,
                             g.c});
          if (int(g.x) >= a.clocks) {
            err = "a guard uses a clock beyond the automaton's clocks";
            return a;
          }
        }
        for (auto r : e.resetVars) {
          x.reset.push_back(int(r));
          if (int(r) >= a.clocks) {
            err = "a reset uses a clock beyond the automaton's clocks";
            return a;
          }
        }
        a.edges.push_back(x);
      }
  return a;
}

// An in-memory log container with the interface of the library's containers,
// and the library's lazy container.  Both end the work budget, which covers the
// construction of the skip tables only, when the log is first read.
class MemWord : public std::vector<std::pair<Alphabet, double>> {
public:
  MemWord(FILE *, bool) {}
  void setFront(std::size_t) {}
  bool fetch(std::size_t n) {
    pbt::g_budgetOn = false;
    return n < this->size();
  }
};
class MemContainer : public WordContainer<MemWord> {
public:
  explicit MemContainer(const Word &w) : WordContainer<MemWord>(nullptr, false) {
    for (auto &e : w)
      this->vec.push_back({e.c, double(e.t) / double(TICKS)});
  }
};
class HookedDeque : public LazyDeque {
public:
  HookedDeque(FILE *f, bool b) : LazyDeque(f, b) {}
  bool fetch(std::size_t n) {
    pbt::g_budgetOn = false;
    return LazyDeque::fetch(n);
  }
};
using LazyContainer = WordContainer<HookedDeque>;
struct FileWord {
  std::string text;
  FILE *f;
  explicit FileWord(const Word &w) : text(logText(w)) {
    if (text.empty())
      text = "\n";
    f = fmemopen(const_cast<char *>(text.data()), text.size(), "r");
  }
  ~FileWord() { fclose(f); }
};
constexpr uint64_t kBig = 250, kAll = 400000;

inline B bound(const Bounds &b, std::string &err) {
  if (std::isinf(b.first)) {
    if (b.first > 0)
      return BINF;
    err = "a reported bound is -inf";
    return -BINF;
  }
  double v = b.first * double(TICKS);
  if (std::isnan(v) || v != std::floor(v) || std::fabs(v) > 1e12) {
    std::ostringstream o;
    o << "a reported bound is not a sum of input constants: " << b.first;
    err = o.str();
    return 0;
  }
  return mk(int64_t(v), b.second);
}
inline Z zone(const Zone &in, std::string &err) {
  Z z;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (i != j)
        z.m[i][j] = bound(in.value(i, j), err);
  z.close();
  return z;
}
inline Fed zones(AnsVec<Zone> &ans, std::string &err) {
  Fed f;
  for (auto &z : ans)
    f.push_back(zone(z, err));
  return f;
}

} // namespace sut
