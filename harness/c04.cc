// C04: writing an automaton as DOT and reading it back, in any spelling, gives the
// same automaton; copies are equal and independent.
#include "sut_tre.hh"
#include "timed_automaton_parser.hh"

// automata up to the numbering of their states
static std::string edgeText(const ora::Edge &e, const std::vector<int> &p) {
  std::vector<std::string> g;
  for (auto &x : e.guard)
    g.push_back("x" + std::to_string(x.x) + ora::opText(x.op) + std::to_string(x.c));
  std::sort(g.begin(), g.end());
  std::vector<int> r = e.reset;
  std::sort(r.begin(), r.end());
  std::ostringstream o;
  o << p[size_t(e.src)] << "->" << p[size_t(e.dst)] << " " << int(e.c);
  for (auto &x : g)
    o << " " << x;
  o << " /";
  for (int x : r)
    o << " " << x;
  return o.str();
}
static std::multiset<std::string> edgesOf(const ora::TA &a, const std::vector<int> &p) {
  std::multiset<std::string> m;
  for (auto &e : a.edges)
    m.insert(edgeText(e, p));
  return m;
}
static bool isoFrom(const ora::TA &a, const ora::TA &b, std::vector<int> &p, std::vector<char> &used,
                    const std::multiset<std::string> &target, size_t i, long &fuel) {
  if (--fuel < 0)
    return true; // undecided
  if (i == size_t(a.n))
    return edgesOf(a, p) == target;
  for (int k = 0; k < b.n; k++) {
    int j = (int(i) + k) % b.n;
    if (used[size_t(j)] || a.init[i] != b.init[size_t(j)] || a.acc[i] != b.acc[size_t(j)])
      continue;
    // the edges between numbered states have to be there
    p[i] = j;
    bool ok = true;
    for (auto &e : a.edges)
      if (size_t(e.src) <= i && size_t(e.dst) <= i && (size_t(e.src) == i || size_t(e.dst) == i))
        ok = ok && target.count(edgeText(e, p));
    if (!ok)
      continue;
    used[size_t(j)] = 1;
    if (isoFrom(a, b, p, used, target, i + 1, fuel))
      return true;
    used[size_t(j)] = 0;
  }
  return false;
}
static bool same(const ora::TA &a, const ora::TA &b) {
  if (a.n != b.n || a.edges.size() != b.edges.size())
    return false;
  std::vector<int> id;
  for (int i = 0; i < b.n; i++)
    id.push_back(i);
  std::vector<int> p(size_t(a.n), -1);
  std::vector<char> used(size_t(a.n), 0);
  long fuel = 200000;
  return isoFrom(a, b, p, used, edgesOf(b, id), 0, fuel);
}
// the largest constant of each clock that is used
static std::vector<int> constants(const ora::TA &a) {
  std::vector<int> m;
  auto use = [&](int x, int c) {
    if (int(m.size()) <= x)
      m.resize(size_t(x) + 1, 0);
    m[size_t(x)] = std::max(m[size_t(x)], c);
  };
  for (auto &e : a.edges) {
    for (auto &g : e.guard)
      use(g.x, g.c);
    for (int x : e.reset)
      use(x, 0);
  }
  return m;
}

// ---- respelled DOT text -------------------------------------------------------
struct Dot {
  pbt::Src &s;
  std::string o;
  bool tight, comments;
  void sp() {
    if (comments && s.chance(1, 16))
      o += s.elem(std::vector<std::string>{" /* a -> b [init=1] */ ", " // c [match=1]\n", "\n"});
    else
      o += tight ? "" : s.elem(std::vector<std::string>{"", " ", "\t", "\n", "  "});
  }
  void attr(std::vector<std::pair<std::string, std::string>> kv) {
    for (size_t i = kv.size(); i > 1; i--)
      std::swap(kv[i - 1], kv[s.below(uint32_t(i))]);
    sp(), o += "[", sp();
    for (size_t i = 0; i < kv.size(); i++) {
      if (i)
        o += s.chance(1, 6) ? " " : ",";
      sp(), o += kv[i].first, sp(), o += "=", sp(), o += kv[i].second, sp();
    }
    o += "]";
  }
  void end() { o += s.chance(1, 4) ? "\n" : ";", sp(); }
  std::string bit(bool b) {
    const char *t = b ? "1" : "0";
    return s.chance(1, 4) ? std::string("\"") + t + "\"" : t;
  }
  std::string text(const ora::TA &a) {
    std::vector<std::string> name;
    int style = int(s.below(4));
    for (int i = 0; i < a.n; i++) {
      std::string n = style == 0   ? std::to_string(i + 1)
                      : style == 1 ? "loc" + std::to_string(i)
                      : style == 2 ? "\"state " + std::to_string(i * 7) + "\""
                                   : std::string(1, char('a' + i)) + "_";
      name.push_back(n);
    }
    o += s.chance(1, 10) ? "digraph" : "digraph G";
    sp(), o += "{", sp();
    std::vector<std::pair<bool, int>> st; // statements: node or edge
    bool mixed = s.chance(1, 3);
    for (int i = 0; i < a.n; i++)
      st.push_back({true, i});
    for (int i = 0; i < int(a.edges.size()); i++)
      st.push_back({false, i});
    if (mixed)
      for (size_t i = st.size(); i > 1; i--)
        std::swap(st[i - 1], st[s.below(uint32_t(i))]);
    for (auto &x : st) {
      if (x.first) {
        size_t i = size_t(x.second);
        std::vector<std::pair<std::string, std::string>> kv;
        // 0 is what a missing mark means
        if (a.init[i] || !s.chance(1, 6))
          kv.push_back({"init", bit(a.init[i])});
        if (a.acc[i] || !s.chance(1, 6))
          kv.push_back({"match", bit(a.acc[i])});
        if (s.chance(1, 10))
          kv.push_back({"shape", s.chance(1, 2) ? "circle" : "\"double circle\""});
        o += name[i];
        if (!kv.empty())
          attr(kv);
        end();
      } else {
        auto &e = a.edges[size_t(x.second)];
        std::vector<std::pair<std::string, std::string>> kv;
        bool bare = e.c != '$' && s.chance(1, 2);
        kv.push_back({"label", bare ? std::string(1, e.c) : std::string("\"") + e.c + "\""});
        if (!e.reset.empty()) {
          std::string r;
          for (int v : e.reset)
            r += (r.empty() ? "" : ", ") + std::to_string(v);
          kv.push_back({"reset", "\"{" + r + "}\""});
        }
        if (!e.guard.empty()) {
          std::string r;
          for (auto &g : e.guard)
            r += (r.empty() ? "" : ", ") + ("x" + std::to_string(g.x)) + " " + ora::opText(g.op) + " " +
                 std::to_string(g.c);
          kv.push_back({"guard", "\"{" + r + "}\""});
        }
        if (s.chance(1, 10))
          kv.push_back({"color", "red"});
        o += name[size_t(e.src)];
        sp(), o += "->", sp();
        o += name[size_t(e.dst)];
        attr(kv);
        end();
      }
    }
    o += "}\n";
    return o;
  }
};

static void compareTo(pbt::Ctx &ctx, const ora::TA &want, const TimedAutomaton &got, const std::string &what,
                      const std::vector<int> &mx) {
  std::string err;
  ora::TA b = sut::readBack(got, err);
  ctx.check(err.empty(), what + ": " + err);
  ctx.check(same(want, b), what + ": another automaton results:\n" + ora::show(b));
  ctx.check(got.clockSize() == mx.size(), what + ": " + std::to_string(got.clockSize()) + " clocks instead of " +
                                              std::to_string(mx.size()));
  for (size_t x = 0; x < mx.size(); x++)
    ctx.check(got.maxConstraints[x] == mx[x], what + ": largest constant of x" + std::to_string(x) + " is " +
                                                  std::to_string(got.maxConstraints[x]));
}
static void read(const std::string &text, TimedAutomaton &out) {
  std::stringstream ss(text);
  BoostTimedAutomaton b;
  parseBoostTA(ss, b);
  convBoostTA(b, out);
}

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TAOpt o;
  o.sigma = s.chance(1, 3) ? "abZAyY" : gen::alphabet(s);
  o.dollar = s.chance(3, 4);
  o.freeAccept = s.chance(1, 3);
  o.maxStates = s.chance(1, 8) ? 20 : 7;
  o.maxClocks = s.chance(1, 8) ? 12 : 3;
  o.maxExtra = 10;
  ora::TA a;
  TimedAutomaton A;
  bool fromTre = s.chance(1, 5);
  if (fromTre) {
    gen::TreOpt t;
    t.sigma = o.sigma;
    ora::T e = gen::tre(s, t, s.range(1, 6));
    e = ora::mkT(ora::Tre::Cat, e, ora::atom('$'));
    ctx.desc << ora::text(e) << "\n";
    auto lib = sut::parseTre(ora::text(e));
    ctx.check(bool(lib), "the expression is not parsed");
    lib->toEventTA(A);
    std::string err;
    a = sut::readBack(A, err);
    ctx.check(err.empty(), err);
    if (a.n > 40)
      throw pbt::Discard();
  } else {
    a = gen::automaton(s, o);
    if (s.chance(1, 6) && !a.edges.empty()) { // no or several initial or accepting states
      for (auto &x : a.init)
        x = s.chance(1, 2);
      for (auto &x : a.acc)
        x = s.chance(1, 2);
    }
    for (auto &e : a.edges)
      for (auto &g : e.guard)
        if (s.chance(1, 25))
          g.c = s.elem(std::vector<int>{100, 4096, 1000000, 2147483647});
    const int far = s.elem(std::vector<int>{60, 120, 240});
    if (s.chance(1, 10) && a.clocks)
      for (auto &e : a.edges) { // distant clock numbers
        for (auto &g : e.guard)
          g.x += far;
        for (auto &r : e.reset)
          r += far;
      }
    a.clocks = int(constants(a).size());
    sut::build(a, A, sut::permutation(s, a.n));
  }
  ctx.desc << ora::show(a);
  const std::vector<int> declared(A.maxConstraints.begin(), A.maxConstraints.end());
  const std::vector<int> used = constants(a);
  if (!fromTre)
    ctx.check(used == declared, "HARNESS: constants");
  std::ostringstream printed;
  printed << A;
  TimedAutomaton B;
  read(printed.str(), B);
  compareTo(ctx, a, B, "written and read back", used);
  compareTo(ctx, a, A, "after writing", declared);
  {
    Dot d{s, "", s.chance(1, 4), s.chance(1, 3)};
    std::string t = d.text(a);
    ctx.desc << t;
    TimedAutomaton C;
    if (s.chance(1, 3))
      read(printed.str(), C); // an automaton that is in use is replaced
    read(t, C);
    compareTo(ctx, a, C, "read from the respelled text", used);
    TimedAutomaton D;
    std::ostringstream again;
    again << C;
    read(again.str(), D);
    compareTo(ctx, a, D, "respelled, written and read back", used);
  }
  {
    TimedAutomaton C;
    std::unordered_map<TAState *, std::shared_ptr<TAState>> m;
    A.deepCopy(C, m);
    compareTo(ctx, a, C, "copied", declared);
    ctx.check(m.size() == A.states.size(), "copied: the map has another size");
    for (size_t i = 0; i < A.states.size(); i++) {
      auto it = m.find(A.states[i].get());
      ctx.check(it != m.end() && it->second && it->second != A.states[i], "copied: a state has no copy of its own");
      ctx.check(std::find(C.states.begin(), C.states.end(), it->second) != C.states.end(),
                "copied: the map leads out of the copy");
      ctx.check(it->second->isMatch == A.states[i]->isMatch &&
                    it->second->zeroDuration == A.states[i]->zeroDuration,
                "copied: the marks of a state differ from those of its copy");
    }
    for (auto &st : C.states) { // spoil one of the two
      st->isMatch = !st->isMatch;
      for (auto &kv : st->next)
        for (auto &e : kv.second) {
          e.guard.push_back({0, Constraint::Order::lt, 77});
          e.resetVars.clear();
          e.target = C.states[0].get();
        }
      st->next['x'].push_back({C.states[0].get(), {0}, {}});
    }
    C.maxConstraints.assign(3, 99);
    C.initialStates.clear();
    compareTo(ctx, a, A, "after its copy is changed", declared);
  }
  int timed = 0;
  for (auto &e : a.edges)
    timed += !e.guard.empty();
  ctx.nontrivial = timed >= 1 && a.n >= 3 && a.edges.size() >= 3;
  if (a.n > 8) ctx.label("> 8 states");
  if (fromTre) ctx.label("from an expression");
  if (timed) ctx.label("guards");
  if (a.clocks > 3) ctx.label("> 3 clocks");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
