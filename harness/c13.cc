// C13: membership of a timed word in an automaton without unobservable transitions.
#include "sut_tre.hh"
#include "timed_automaton_parser.hh"
#include "dot.hh"

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TAOpt o;
  o.sigma = gen::alphabet(s, true);
  o.maxStates = s.pick({6, 1}) ? 8 : 4;
  o.maxClocks = s.pick({6, 1}) ? 5 : 3;
  o.freeAccept = s.chance(3, 4);
  o.dollar = s.chance(1, 4);
  ora::TA a = gen::automaton(s, o);
  std::vector<ora::Word> words;
  for (int k = s.range(3, 8); k > 0; k--) {
    ora::Word w;
    if (s.chance(5, 6)) {
      w = gen::timedWalk(s, a, s.range(1, 8));
      if (o.dollar && s.chance(2, 3))
        w.push_back({'$', (w.empty() ? 0 : w.back().t) + gen::gap(s)});
      if (s.chance(1, 2))
        gen::mutate(s, w, o.sigma);
    } else {
      std::string l;
      for (int i = s.range(0, 5); i > 0; i--)
        l += s.elem(o.sigma);
      w = gen::retime(s, l);
    }
    if (!w.empty() && s.chance(1, 6)) { // events at the same time
      size_t i = s.below(uint32_t(w.size()));
      int64_t d = w[i].t - (i ? w[i - 1].t : 0);
      for (size_t j = i; j < w.size(); j++)
        w[j].t -= d;
    }
    if (w.size() > 12)
      w.resize(12);
    words.push_back(w);
  }
  int scale = gen::scaleFactor(s);
  gen::scaleTA(a, scale);
  for (auto &w : words)
    gen::scaleWord(s, w, scale);
  bool viaDot = s.chance(1, 3), copied = s.chance(1, 3);
  ctx.desc << ora::show(a) << (viaDot ? "[dot]" : "[built]") << (copied ? "[copied]" : "") << "\n";
  TimedAutomaton A, C;
  if (viaDot) {
    std::stringstream ss(dot::text(a));
    BoostTimedAutomaton b;
    parseBoostTA(ss, b);
    convBoostTA(b, A);
  } else
    sut::build(a, A, sut::permutation(s, a.n));
  std::unordered_map<TAState *, std::shared_ptr<TAState>> m;
  if (copied)
    A.deepCopy(C, m);
  const TimedAutomaton &T = copied ? C : A;
  bool both[2] = {false, false}, longer = false;
  for (auto &w : words) {
    std::vector<std::pair<Alphabet, double>> v;
    for (auto &e : w)
      v.push_back({e.c, double(e.t) / 8});
    bool want = ora::acceptsTA(a, w), got = T.isMember(v);
    both[want] = true;
    longer = longer || (want && w.size() >= 2);
    ctx.check(want == got, std::string(want ? "a word of the automaton is no member: " : "a word outside the automaton is a member: ") + ora::show(w));
    ctx.check(T.isMember(v) == got, "asked twice, answered differently: " + ora::show(w));
  }
  bool timed = false;
  for (auto &e : a.edges)
    timed = timed || !e.guard.empty();
  ctx.nontrivial = timed && longer;
  if (both[0] && both[1]) ctx.label("members and others");
  if (viaDot) ctx.label("read from DOT");
  if (copied) ctx.label("copied");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
