// C18: matching for patterns whose end need not be `$`: matches ending with `$`
// anywhere, or exactly at an event that enters an accepting state.
#include "sut.hh"

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TAOpt o;
  o.sigma = gen::alphabet(s, true);
  o.maxStates = 4;
  o.maxClocks = s.pick({8, 1}) ? 3 : 2;
  o.dollar = s.chance(1, 2);
  o.freeAccept = s.chance(2, 3);
  ora::TA a = gen::automaton(s, o);
  if (s.chance(1, 10))
    gen::embed(s, a, o);
  if (o.dollar && s.chance(1, 3)) // an accepting state the run may leave with `$`
    a.acc[size_t(s.range(0, a.n - 1))] = 1;
  std::string period;
  if (s.chance(1, 20)) {
    period = gen::periodic(s, o.sigma, s.range(5, 9));
    a = gen::chain(s, period + (o.dollar ? "$" : ""));
  }
  auto perm = sut::permutation(s, a.n);
  bool viaFile = s.chance(1, 2);
  ora::Word w = !period.empty() ? gen::chainLog(s, period, o.sigma, 26) : gen::logFor(s, a, o.sigma, s.chance(1, 20) ? 40 : 12);
  gen::limitRuns(a, w);
  gen::scale(s, a, w);
  ctx.desc << ora::show(a) << "log: " << ora::show(w) << (viaFile ? "[file]" : "[memory]");
  TimedAutomaton A;
  sut::build(a, A, perm);
  AnsVec<Zone> ans;
  sut::FileWord fw(w);
  int status = pbt::callCatchingExit([&] {
    pbt::withBudget(sut::kBig, sut::kAll, [&] {
      if (viaFile)
        monaaNotNecessaryDollar(sut::LazyContainer(fw.f), A, ans);
      else
        monaaNotNecessaryDollar(sut::MemContainer(w), A, ans);
    });
  });
  ctx.check(status == -1 || status == 10, "unexpected exit " + std::to_string(status));
  ora::Matches ends;
  auto ref = ora::matchTA(a, w, ora::EndRule::Dollar, &ends);
  std::string err;
  ora::Fed got = sut::zones(ans, err);
  ctx.check(err.empty(), err);
  if (status == 10) {
    ctx.label("reported as empty pattern");
    got.clear();
  }
  size_t nEnds = ends.size(), nDollar = ref.size();
  for (auto &kv : ends)
    for (auto &z : kv.second)
      ora::addZone(ref[kv.first], z);
  auto r = ora::compare(got, ref, w, [](int i, int j) { return i < j; });
  bool timed = false;
  for (auto &e : a.edges)
    timed = timed || !e.guard.empty();
  ctx.nontrivial = r.covered > 0 && timed && nEnds > 0;
  for (auto &e : a.edges)
    if (e.c == '$' && a.acc[size_t(e.src)]) {
      ctx.label("`$` from an accepting state");
      break;
    }
  if (nEnds) ctx.label("matches ending at an event");
  if (nDollar) ctx.label("matches ending with $");
  ctx.check(r.error.empty(), r.error);
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
