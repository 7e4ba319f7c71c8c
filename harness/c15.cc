// C15: texts are read as the expressions they denote, all others are rejected.
#include "treref.hh"
using ora::T;
using ora::Tre;
using namespace tre;

static int size(const T &e) { return e ? 1 + size(e->l) + size(e->r) : 0; }
static int sizeOr(const T &e, Tre::K k) { return e ? (e->k == k) + sizeOr(e->l, k) + sizeOr(e->r, k) : 0; }

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TreOpt o;
  o.sigma = gen::alphabet(s);
  if (s.chance(1, 3))
    o.sigma += '$';
  o.conj = s.chance(2, 3);
  std::string txt;
  bool whole = false;
  int kind = s.pick({10, 8, 2, 1});
  if (kind == 3) { // long or deep
    int n = s.range(1, 1500);
    std::string unit = s.elem(std::vector<std::string>{"a", "(", "a|", "a&", "((", "+", "a%(1,2)", "%(", "()"});
    txt = s.chance(1, 2) ? "" : "a";
    for (int i = 0; i < n; i++)
      txt += unit;
    txt += s.chance(1, 2) ? "a" : "";
    if (s.chance(1, 2) && unit[0] == '(' && unit.size() < 3)
      for (size_t i = 0; i < size_t(n) * unit.size(); i++)
        txt += ")";
  } else if (kind == 2) { // arbitrary tokens or bytes
    int n = s.range(0, 24);
    bool bytes = s.chance(1, 4);
    for (int i = 0; i < n; i++)
      txt += bytes ? std::string(1, char(s.below(256)))
                   : s.elem(std::vector<std::string>{"a", "b", "$", "(", ")", "%", "(1,2)", "<", "<=", ">", "=", "1",
                                                     ",", "[", "]", "+", "*", "|", "&", " ", "%(1,2)", "\n"});
  } else {
    T e = gen::tre(s, o, s.range(1, 8));
    Writer w{s, int(s.pick({4, 1, 1}) * 3), ""};
    if (w.blanks && s.chance(1, 3))
      w.o += " ";
    w.expr(e, false);
    txt = w.o;
    if (kind == 0) {
      if (s.chance(1, 8))
        txt += "\n";
    } else {
      int n = s.range(1, 3);
      for (int i = 0; i < n; i++) {
        size_t at = s.below(uint32_t(txt.size() + 1));
        static const std::string chars = "ab$Z()[]%<>=,+*|&019 \t\n?@{-";
        switch (s.pick({4, 4, 4, 2, 1})) {
        case 0: txt.insert(at, 1, s.elem(chars)); break;
        case 1:
          if (at < txt.size())
            txt.erase(at, 1);
          break;
        case 2:
          if (at < txt.size())
            txt[at] = s.elem(chars);
          break;
        case 3:
          if (at + 1 < txt.size())
            std::swap(txt[at], txt[at + 1]);
          break;
        default:
          txt.insert(at, s.elem(std::vector<std::string>{"2147483647", "2147483648", "4294967297", "99999999999999999999",
                                                         "%(5,3)", "%((<2))", "%()", "\xc3\xa9"}));
        }
      }
    }
    whole = kind == 0;
  }
  ctx.desc << "text: " << txt << "\n";
  T ref;
  bool open = false; // several lines: only required not to crash
  try {
    Reader r(txt);
    open = r.afterEnd;
    ref = r.all();
  } catch (Bad &) {
  }
  ctx.check(!whole || ref, "HARNESS: a written text is not read back");
  std::shared_ptr<const TRE> lib;
  std::string thrown;
  int status = pbt::callCatchingExit([&] { lib = sut::parseTre(txt); });
  ctx.check(status == -1 || status > 0, "exit " + std::to_string(status) + " while parsing");
  bool accepted = status == -1 && lib;
  if (open) {
    ctx.label("several lines");
    return;
  }
  ctx.check(accepted == bool(ref), ref ? "a text of the syntax is rejected" : "a text outside the syntax is accepted");
  ctx.label(ref ? "accepted" : "rejected");
  if (!ref) {
    ctx.nontrivial = kind == 1 || txt.size() > 4;
    return;
  }
  int n = size(ref);
  if (n > 24 || kind == 3 || sizeOr(ref, Tre::And) > 3) {
    ctx.label("large, read only");
    return;
  }
  TimedAutomaton A;
  lib->toEventTA(A);
  std::string err;
  ora::TA a = sut::readBack(A, err);
  ctx.check(err.empty(), err);
  bool both[2] = {false, false};
  int words = s.range(4, 14);
  for (int k = 0; k < words; k++) {
    ora::Word w;
    if (s.chance(4, 5)) {
      w = gen::timedSample(s, ref, 8);
      gen::mutate(s, w, o.sigma);
    } else {
      std::string l;
      int len = s.range(0, 4);
      for (int i = 0; i < len; i++)
        l += s.elem(o.sigma);
      w = gen::retime(s, l);
    }
    if (w.size() > 14)
      w.resize(14);
    bool want = ora::acceptsTRE(ref, w);
    bool got = ora::acceptsTA(a, w);
    both[want] = true;
    ctx.check(want == got, "read as " + ora::text(ref) + ", but " +
                               (want ? "a word of the expression is not accepted: "
                                     : "a word outside the expression is accepted: ") +
                               ora::show(w));
  }
  ctx.nontrivial = both[1] && n >= 4;
  if (both[0] && both[1]) ctx.label("accepted and rejected words");
  if (txt.find('%') != std::string::npos) ctx.label("interval");
  if (txt.find(' ') != std::string::npos || txt.find('\t') != std::string::npos) ctx.label("blanks");
  if (ora::text(ref).size() > txt.size() + 2) ctx.label("parentheses left out");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
