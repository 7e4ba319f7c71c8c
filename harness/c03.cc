// C03: the automaton built from a timed regular expression accepts exactly the
// timed words of the expression.
#include "sut_tre.hh"

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TreOpt o;
  o.sigma = gen::alphabet(s);
  if (s.chance(1, 4))
    o.sigma += '$';
  o.conj = s.chance(1, 2);
  ora::T e = s.chance(1, 6) ? gen::nestedTre(s, o) : gen::tre(s, o, s.range(1, s.chance(1, 6) ? 14 : 8));
  if (s.chance(1, 4) && o.sigma.find('$') == std::string::npos)
    e = ora::mkT(ora::Tre::Cat, e, ora::atom('$'));
  int scale = gen::scaleFactor(s);
  e = gen::scaleTre(e, scale);
  bool parsed = s.chance(1, 2);
  ctx.desc << ora::text(e) << (parsed ? " [parsed]" : " [built]") << "\n";
  std::shared_ptr<const TRE> lib;
  if (parsed)
    lib = sut::parseTre(ora::text(e));
  else
    lib = sut::buildTre(e);
  ctx.check(bool(lib), "the expression is not parsed");
  TimedAutomaton A;
  lib->toEventTA(A);
  std::string err;
  ora::TA a = sut::readBack(A, err);
  ctx.check(err.empty(), err);
  ctx.desc << ora::show(a);
  std::vector<int> mx(A.maxConstraints.begin(), A.maxConstraints.end());
  for (auto &ed : a.edges)
    for (auto &g : ed.guard)
      ctx.check(mx[size_t(g.x)] >= g.c, "a guard constant exceeds the declared maximum of its clock");
  bool both[2] = {false, false};
  int words = s.range(4, 12);
  for (int k = 0; k < words; k++) {
    ora::Word w;
    if (s.chance(4, 5)) {
      w = gen::timedSample(s, e, 8);
      gen::mutate(s, w, o.sigma);
    } else {
      std::string l;
      int len = s.range(0, 4);
      for (int i = 0; i < len; i++)
        l += s.elem(o.sigma);
      w = gen::retime(s, l);
      gen::scaleWord(s, w, scale);
    }
    if (w.size() > 14)
      w.resize(14);
    bool want = ora::acceptsTRE(e, w);
    bool got = ora::acceptsTA(a, w);
    both[want] = true;
    ctx.check(want == got, std::string(want ? "word of the expression rejected: "
                                            : "word outside the expression accepted: ") +
                               ora::show(w));
  }
  bool timed = ora::text(e).find('%') != std::string::npos;
  ctx.nontrivial = both[1] && timed && ora::text(e).size() > 4;
  if (both[0] && both[1]) ctx.label("accepted and rejected words");
  if (ora::text(e).find('&') != std::string::npos) ctx.label("conjunction");
  if (ora::text(e).find('*') != std::string::npos) ctx.label("star");
  if (ora::nullable(e)) ctx.label("nullable");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
