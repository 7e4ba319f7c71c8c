// C09: zone construction: terminates, contains exactly the reachable states,
// decides emptiness, and pruning keeps exactly the states that can still accept.
#include "regions.hh"
#include "ta2za.hh"
#include "zone_automaton.hh"

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TAOpt o;
  o.sigma = s.elem(std::vector<std::string>{"ab", "a", "ab", "a", "ab", "a", "ab", "z", "~a"});
  o.maxStates = 4;
  o.maxClocks = s.chance(1, 10) ? 3 : 2;
  o.dollar = false;
  o.freeAccept = s.chance(1, 2);
  o.eps = s.chance(1, 4);
  ora::TA a = gen::automaton(s, o);
  int cap = s.pick({6, 2, 1});
  int mod = cap == 0 ? 4 : cap == 1 ? 6 : 9;
  if (a.clocks > 2)
    mod = 3;
  for (auto &e : a.edges)
    for (auto &g : e.guard)
      g.c %= mod;
  ctx.desc << ora::show(a);
  // large constants: the same automaton with another unit of time
  ora::TA scaled = a;
  int scale = gen::scaleFactor(s);
  gen::scaleTA(scaled, scale);
  if (scale > 1)
    ctx.desc << "constants multiplied by " << scale << "\n";
  TimedAutomaton A;
  sut::build(scaled, A, sut::permutation(s, a.n));
  // the declared maxima may be larger than the constants that occur
  if (s.chance(1, 8) && a.clocks)
    A.maxConstraints[0] += s.range(1, 2);
  reg::Graph g(a);
  if (g.overflow)
    throw pbt::Discard();
  auto live = g.live();
  ZoneAutomaton ZA;
  bool over = false;
  try {
    pbt::withBudget(6000, uint64_t(1) << 62, [&] { ta2za(A, ZA); });
  } catch (const pbt::OverBudget &) {
    over = true;
  }
  ctx.check(!over, "the construction exceeds 6000 states where the region graph has " +
                       std::to_string(g.confs.size()));
  std::set<const TAState *> inZA;
  for (auto &z : ZA.states)
    inZA.insert(z->taState);
  std::vector<char> reach(size_t(a.n), 0), alive(size_t(a.n), 0);
  bool nonEmpty = false;
  for (size_t i = 0; i < g.confs.size(); i++) {
    reach[size_t(g.confs[i].first)] = 1;
    if (live[i])
      alive[size_t(g.confs[i].first)] = 1;
    nonEmpty = nonEmpty || a.acc[size_t(g.confs[i].first)];
  }
  for (int q = 0; q < a.n; q++)
    ctx.check(bool(reach[size_t(q)]) == bool(inZA.count(A.states[size_t(q)].get())),
              "state " + std::to_string(q) + (reach[size_t(q)] ? " is reachable but missing" : " is unreachable but present"));
  ctx.check(ZA.empty() == !nonEmpty, nonEmpty ? "a non-empty language is judged empty" : "an empty language is judged non-empty");
  size_t before = ZA.states.size();
  for (auto &z : ZA.states)
    ctx.check(z->isMatch == z->taState->isMatch, "acceptance differs from the automaton's");
  // words of bounded length: letters readable from the initial states
  ZA.removeDeadStates();
  std::set<const TAState *> kept;
  for (auto &z : ZA.states)
    kept.insert(z->taState);
  for (int q = 0; q < a.n; q++)
    ctx.check(bool(alive[size_t(q)]) == bool(kept.count(A.states[size_t(q)].get())),
              "state " + std::to_string(q) + (alive[size_t(q)] ? " can still accept but was removed" : " cannot accept but was kept"));
  ctx.check(ZA.empty() == !nonEmpty, "pruning changed emptiness");
  // untimed language up to a bounded length, state sets on both sides
  size_t steps = 0;
  {
    std::set<ZAState *> zs;
    for (auto &z : ZA.initialStates)
      zs.insert(z.get());
    std::set<int> rs;
    for (size_t i = 0; i < g.confs.size(); i++)
      if (live[i] && a.init[size_t(g.confs[i].first)] &&
          g.confs[i].second == std::vector<int>(size_t(a.clocks), 0))
        rs.insert(int(i));
    std::vector<std::pair<std::pair<std::set<ZAState *>, std::set<int>>, int>> todo{{{zs, rs}, 0}};
    while (!todo.empty() && steps < 200) {
      auto cur = todo.back();
      todo.pop_back();
      steps++;
      bool za = false, ra = false;
      for (auto *z : cur.first.first)
        za = za || z->isMatch;
      for (int r : cur.first.second)
        ra = ra || a.acc[size_t(g.confs[size_t(r)].first)];
      ctx.check(za == ra, "an untimed word is accepted by one of zone automaton and automaton only");
      if (cur.second >= 5)
        continue;
      for (char c : o.sigma + std::string(o.eps ? 1 : 0, '\0')) {
        std::set<ZAState *> zn;
        std::set<int> rn;
        for (auto *z : cur.first.first)
          for (auto &n : z->next[size_t(c)])
            if (auto p = n.lock())
              zn.insert(p.get());
        for (int r : cur.first.second)
          for (auto &n : g.succ[size_t(r)])
            if (n.first == c && live[size_t(n.second)])
              rn.insert(n.second);
        ctx.check(zn.empty() == rn.empty(), std::string("after pruning, letter ") + (c ? c : '0') +
                                                (rn.empty() ? " leads to a state that cannot accept" : " is missing"));
        if (!zn.empty())
          todo.push_back({{zn, rn}, cur.second + 1});
      }
    }
  }
  ctx.nontrivial = a.clocks > 0 && g.confs.size() >= 8 && before >= 3;
  if (!nonEmpty) ctx.label("empty language");
  if (before > 50) ctx.label("> 50 zones");
  if (ZA.states.size() < before) ctx.label("pruned");
  if (a.clocks >= 2) ctx.label(">= 2 clocks");
  if (o.eps) ctx.label("unobservable edges");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
