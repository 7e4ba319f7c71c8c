// C19: matching whose last event is moved forward to the end of the match
// (the signal-style matcher over arbitrary automata without unobservable edges).
#include "sut.hh"

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TAOpt o;
  o.sigma = gen::alphabet(s, true);
  o.maxStates = 4;
  o.maxClocks = s.pick({8, 1}) ? 3 : 2;
  o.dollar = false;
  o.freeAccept = s.chance(2, 3);
  ora::TA a = gen::automaton(s, o);
  if (s.chance(1, 10))
    gen::embed(s, a, o);
  std::string period;
  if (s.chance(1, 20)) {
    period = gen::periodic(s, o.sigma, s.range(5, 9));
    a = gen::chain(s, period);
  }
  auto perm = sut::permutation(s, a.n);
  bool viaFile = s.chance(1, 2);
  ora::Word w = !period.empty() ? gen::chainLog(s, period, o.sigma, 26) : gen::logFor(s, a, o.sigma, s.chance(1, 20) ? 40 : 12);
  gen::limitRuns(a, w);
  gen::scale(s, a, w);
  ctx.desc << ora::show(a) << "log: " << ora::show(w) << (viaFile ? "[file]" : "[memory]");
  TimedAutomaton A;
  sut::build(a, A, perm);
  AnsVec<Zone> ans;
  sut::FileWord fw(w);
  int status = pbt::callCatchingExit([&] {
    pbt::withBudget(sut::kBig, sut::kAll, [&] {
      if (viaFile)
        monaa(sut::LazyContainer(fw.f), A, ans);
      else
        monaa(sut::MemContainer(w), A, ans);
    });
  });
  ctx.check(status == -1 || status == 10, "unexpected exit " + std::to_string(status));
  auto ref = ora::matchTA(a, w, ora::EndRule::Advance);
  std::string err;
  ora::Fed got = sut::zones(ans, err);
  ctx.check(err.empty(), err);
  if (status == 10) {
    ctx.label("reported as empty pattern");
    got.clear();
  }
  auto r = ora::compare(got, ref, w, [](int, int) { return true; });
  bool timed = false;
  for (auto &e : a.edges)
    timed = timed || !e.guard.empty();
  ctx.nontrivial = r.covered > 0 && timed;
  if (r.covered) ctx.label("has matches");
  if (!period.empty()) ctx.label("long chain");
  if (a.clocks >= 2) ctx.label(">= 2 clocks");
  ctx.check(r.error.empty(), r.error);
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
