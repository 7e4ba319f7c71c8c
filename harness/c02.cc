// C02: event-mode matching of a timed regular expression is exact.
#include "sut_tre.hh"

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TreOpt o;
  o.sigma = gen::alphabet(s);
  o.conj = s.chance(1, 3);
  ora::T body = s.chance(1, 12) ? gen::nestedTre(s, o) : gen::tre(s, o, s.range(1, s.chance(1, 8) ? 9 : 6));
  ora::T e = body;
  switch (s.pick({6, 2, 1})) {
  case 0: e = ora::mkT(ora::Tre::Cat, body, ora::atom('$')); break;
  case 1: { // the duration covers the end of the match, too
    e = ora::mkT(ora::Tre::Within, ora::mkT(ora::Tre::Cat, body, ora::atom('$')));
    e->iv = gen::interval(s);
    e->form = int(s.below(4));
    break;
  }
  default:
    e = ora::mkT(ora::Tre::Or, ora::mkT(ora::Tre::Cat, body, ora::atom('$')),
                 ora::mkT(ora::Tre::Cat, gen::tre(s, o, 2), ora::atom('$')));
  }
  bool viaFile = s.chance(1, 2);
  ora::Word w;
  int parts = s.range(1, 3), maxEv = s.chance(1, 20) ? 40 : 12;
  for (int k = 0; k < parts && int(w.size()) < maxEv; k++) {
    ora::Word v;
    if (s.chance(3, 4)) {
      v = gen::timedSample(s, body, 6);
      gen::mutate(s, v, o.sigma);
    } else {
      std::string l;
      int len = s.range(0, 4);
      for (int i = 0; i < len; i++)
        l += s.chance(1, 12) ? gen::foreign(s) : s.elem(o.sigma);
      v = gen::retime(s, l);
    }
    gen::appendWord(w, v, s.chance(1, 2) ? 0 : gen::gap(s));
  }
  if (int(w.size()) > maxEv)
    w.resize(size_t(maxEv));
  int scale = gen::scaleFactor(s);
  e = gen::scaleTre(e, scale);
  gen::scaleWord(s, w, scale);
  auto lib = sut::parseTre(ora::text(e));
  ctx.desc << ora::text(e) << "\n";
  ctx.check(bool(lib), "the expression is not parsed");
  TimedAutomaton A;
  lib->toEventTA(A);
  std::string err;
  ora::TA a = sut::readBack(A, err);
  ctx.check(err.empty(), err);
  gen::limitRuns(a, w);
  ctx.desc << "log: " << ora::show(w) << (viaFile ? "[file]" : "[memory]") << "\n";
  AnsVec<Zone> ans;
  sut::FileWord fw(w);
  int status = pbt::callCatchingExit([&] {
    pbt::withBudget(sut::kBig, sut::kAll, [&] {
      if (viaFile)
        monaaDollar(sut::LazyContainer(fw.f), A, ans);
      else
        monaaDollar(sut::MemContainer(w), A, ans);
    });
  });
  ctx.check(status == -1 || status == 10, "unexpected exit " + std::to_string(status));
  auto ref = ora::matchTRE(e, w);
  ora::Fed got = sut::zones(ans, err);
  ctx.check(err.empty(), err);
  if (status == 10) {
    ctx.label("reported as empty pattern");
    got.clear();
  }
  auto r = ora::compare(got, ref, w, [](int i, int j) { return i < j; });
  std::string t = ora::text(e);
  ctx.nontrivial = r.covered > 0 && t.find('%') != std::string::npos;
  if (r.covered) ctx.label("has matches");
  if (t.find('&') != std::string::npos) ctx.label("conjunction");
  if (t.find('*') != std::string::npos) ctx.label("star");
  if (t.find('+') != std::string::npos) ctx.label("plus");
  if (t.find("inf") != std::string::npos || t.find('>') != std::string::npos) ctx.label("unbounded interval");
  if (a.clocks >= 2) ctx.label(">= 2 clocks");
  if (w.size() > 12) ctx.label("log > 12 events");
  ctx.check(r.error.empty(), r.error);
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
