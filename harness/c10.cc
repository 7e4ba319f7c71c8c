// C10: the skip values never jump over the beginning of a match.
#include "kmp_skip_value.hh"
#include "sunday_skip_value.hh"
#include "sut.hh"

// States (of runs from a beginning in cell i) reached over a prefix of events i..
static std::set<int> reached(const ora::TA &a, const ora::Word &w, int i) {
  using namespace ora;
  using Key = std::pair<int, std::vector<int>>;
  std::set<int> out;
  const int n = int(w.size());
  std::map<Key, Fed> confs;
  Z start;
  start.with(0, 1, mk(-tau(w, i - 1), true));
  if (i < n)
    start.with(1, 0, mk(tau(w, i), false));
  start.close();
  for (int s = 0; s < a.n; s++)
    if (a.init[size_t(s)])
      confs[{s, std::vector<int>(size_t(a.clocks), -1)}] = {start};
  for (int j = i; j <= n && !confs.empty(); j++) {
    for (auto &kv : confs)
      out.insert(kv.first.first);
    if (j == n)
      break;
    std::map<Key, Fed> next;
    for (auto &kv : confs)
      for (auto &e : a.edges) {
        if (e.src != kv.first.first || e.c != w[size_t(j)].c)
          continue;
        Key k{e.dst, kv.first.second};
        for (int x : e.reset)
          k.second[size_t(x)] = j;
        for (auto z : kv.second) {
          bool ok = true;
          for (auto &g : e.guard) {
            int r = kv.first.second[size_t(g.x)];
            if (r < 0)
              constrain(z, 0, 1, g.op, g.c * TICKS - tau(w, j));
            else
              ok = ok && sat(g.op, tau(w, j) - tau(w, r), g.c * TICKS);
          }
          z.close();
          if (ok && !z.empty())
            addZone(next[k], z);
        }
      }
    confs.swap(next);
  }
  return out;
}

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TAOpt o;
  o.sigma = gen::alphabet(s, true);
  o.maxStates = 4;
  o.maxClocks = s.chance(1, 2) ? 1 : 2;
  o.dollar = s.chance(1, 3);
  o.freeAccept = !o.dollar && s.chance(1, 2);
  bool longer = s.chance(1, 3);
  if (longer) {
    o.maxClocks = s.chance(1, 6) ? 2 : 1;
    o.maxStates = 3;
  }
  ora::TA a = gen::automaton(s, o);
  if (longer && s.chance(1, 2)) {
    a.clocks = 0;
    for (auto &e : a.edges)
      e.guard.clear(), e.reset.clear();
  }
  if (longer)
    gen::embed(s, a, o);
  std::string period;
  if (s.chance(1, 12)) {
    o.dollar = false;
    period = gen::periodic(s, o.sigma, s.range(6, 10));
    a = gen::chain(s, period);
  }
  auto perm = sut::permutation(s, a.n);
  // self-overlapping logs: a walk repeated with small changes
  ora::Word w;
  int shape = s.pick({2, 2, 2});
  if (!period.empty())
    w = gen::chainLog(s, period, o.sigma, 28);
  else if (shape == 0)
    w = gen::logFor(s, a, o.sigma, 12);
  else {
    std::string unit = gen::walk(s, a, s.range(1, 5));
    ora::Word one = shape == 1 ? gen::timedWalk(s, a, s.range(1, 5)) : gen::retime(s, unit);
    while (w.size() < 12 && !one.empty()) {
      size_t from = w.size();
      gen::appendWord(w, one, gen::gap(s));
      if (s.chance(1, 4) && w.size() > from)
        w[from + s.below(uint32_t(w.size() - from))].c = s.elem(o.sigma);
      if (s.chance(1, 5))
        w.pop_back();
    }
  }
  // letters `$` stand for the inserted ends of matches
  if (o.dollar)
    for (auto &e : w)
      if (s.chance(1, 4))
        e.c = '$';
  for (size_t i = 0; i < w.size(); i++)
    w[i].t = std::max<int64_t>(w[i].t, i ? w[i - 1].t + 1 : 1);
  gen::limitRuns(a, w);
  gen::scale(s, a, w);
  ctx.desc << ora::show(a) << "log: " << ora::show(w);
  TimedAutomaton A;
  sut::build(a, A, perm);
  std::unique_ptr<SundaySkipValue> delta;
  std::unique_ptr<KMPSkipValue> beta;
  int status = pbt::callCatchingExit([&] {
    pbt::withBudget(2 * sut::kBig, sut::kAll, [&] {
      delta = std::make_unique<SundaySkipValue>(A);
      beta = std::make_unique<KMPSkipValue>(A, delta->getM());
    });
  });
  auto ref = ora::matchTA(a, w, ora::EndRule::Advance);
  std::set<int> starts;
  if (status == 10) {
    ctx.check(ref.empty(), "an automaton with a match is judged an empty pattern");
    ctx.label("reported as empty pattern");
    return;
  }
  ctx.check(status == -1, "unexpected exit " + std::to_string(status));
  const int m = delta->getM();
  std::unordered_set<char> ends;
  delta->getEndChars(ends);
  ctx.check(m >= 1, "the least number of events is not positive");
  for (auto &kv : ref) {
    int i = kv.first.first, j = kv.first.second;
    starts.insert(i);
    ctx.check(j - i + 1 >= m, "a match has " + std::to_string(j - i + 1) + " events, the least number is " + std::to_string(m));
    for (int k = 0; k < m; k++)
      ctx.check(int(delta->at(size_t(w[size_t(i + k)].c))) <= m - k,
                "the jump for the letter at offset " + std::to_string(k) + " of a match is " +
                    std::to_string(delta->at(size_t(w[size_t(i + k)].c))) + " with least length " + std::to_string(m));
    ctx.check(ends.count(w[size_t(i + m - 1)].c), "the m-th letter of a match is not among the possible m-th letters");
  }
  // letters outside the pattern: never more than m+1
  for (int c = 1; c < 127; c++)
    ctx.check(delta->at(size_t(c)) >= 1 && int(delta->at(size_t(c))) <= m + 1, "a letter jump outside [1, m+1]");
  bool skip = false, overlap = false;
  for (int i = 0; i <= int(w.size()); i++)
    for (int q : reached(a, w, i)) {
      int b = beta->at(A.states[size_t(q)]);
      ctx.check(b >= 1, "a state jump is not positive");
      skip = skip || b > 1;
      overlap = overlap || (starts.lower_bound(i + 1) != starts.end());
      for (int k = i + 1; k < i + b; k++)
        ctx.check(!starts.count(k), "state " + std::to_string(q) + " is reached from cell " + std::to_string(i) +
                                        ", its jump is " + std::to_string(b) + ", but a match begins in cell " + std::to_string(k));
    }
  ctx.nontrivial = overlap && m >= 2;
  if (skip && overlap) ctx.label("a jump > 1, a later match");
  if (skip) ctx.label("a jump > 1");
  if (m >= 3) ctx.label("m >= 3");
  if (!period.empty()) ctx.label("long chain");
  if (a.clocks >= 2) ctx.label(">= 2 clocks");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
