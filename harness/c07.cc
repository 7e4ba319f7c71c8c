// C07: the contract of the command line for any arguments and inputs.
#include "treref.hh"
#include "cli.hh"
#include "dot.hh"

using Args = std::vector<std::string>;
using Exits = std::set<int>;
static void opt(pbt::Src &s, Args &a, const char *sh, const char *lg, const std::string &v) {
  bool dash = !v.empty() && (v[0] == '-' || v[0] == '=');
  switch (dash ? 2 : s.below(4)) {
  case 0: a.push_back(sh), a.push_back(v); break;
  case 1: a.push_back(lg), a.push_back(v); break;
  case 2: a.push_back(std::string(lg) + "=" + v); break;
  default: a.push_back(sh + v);
  }
}
static std::string mutateBytes(pbt::Src &s, std::string t, const std::vector<std::string> &tokens, bool keepDigits) {
  int n = s.range(1, 4);
  for (int i = 0; i < n; i++) {
    size_t at = s.below(uint32_t(t.size() + 1));
    bool digit = at < t.size() && isdigit(static_cast<unsigned char>(t[at]));
    switch (s.pick({3, 3, 4, 2, 1})) {
    case 0:
      if (at < t.size())
        t.erase(at, size_t(s.range(1, 6)));
      break;
    case 1:
      if (at < t.size() && !(keepDigits && digit))
        t[at] = char(s.below(256));
      break;
    case 2: t.insert(at, s.elem(tokens)); break;
    case 3: t.insert(at, 1, char(s.below(256))); break;
    default: t.resize(at);
    }
  }
  return t;
}
static bool balancedDigits(const std::string &t) { // no number above 60, so that work stays bounded
  for (size_t i = 0; i < t.size();) {
    size_t k = i;
    while (k < t.size() && isdigit(static_cast<unsigned char>(t[k])))
      k++;
    if (k - i > 2 || (k - i == 2 && t[i] > '1'))
      return false;
    i = k + 1;
  }
  return true;
}

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  const std::string monaa = cli::tool("MONAA"), tre2ta = cli::tool("TRE2TA");
  std::vector<std::unique_ptr<cli::File>> files;
  auto file = [&](const std::string &c) {
    files.push_back(std::make_unique<cli::File>(c));
    return files.back()->name();
  };
  std::string sigma = gen::alphabet(s);
  // a pattern, a log
  gen::TreOpt o;
  o.sigma = sigma;
  o.conj = s.chance(1, 3);
  ora::T body = gen::tre(s, o, s.range(1, 4));
  ora::T e = ora::mkT(ora::Tre::Cat, body, ora::atom('$'));
  tre::Writer wr{s, int(s.pick({3, 1}) * 4), ""};
  wr.expr(e, false);
  std::string text = wr.o;
  ora::Word w = gen::logFor(s, body, sigma, 10);
  auto lib = sut::parseTre(text);
  ctx.check(bool(lib), "the expression is not parsed");
  TimedAutomaton A;
  lib->toEventTA(A);
  std::string err;
  ora::TA a = sut::readBack(A, err);
  ctx.check(err.empty(), err);
  gen::limitRuns(a, w, 1000);
  auto inProcess = [&](const TimedAutomaton &A) {
    return pbt::callCatchingExit([&] {
      pbt::withBudget(sut::kBig, sut::kAll, [&] {
        AnsVec<Zone> ans;
        monaaDollar(sut::MemContainer(w), A, ans);
      });
    });
  };
  int status = inProcess(A);
  ctx.check(status == -1 || status == 10, "unexpected exit " + std::to_string(status));
  int okExit = status == 10 ? 10 : 0;
  ctx.desc << "expression: " << text << "\nlog: " << ora::show(w) << "\n";

  bool isDot = false;
  std::string log = ora::logText(w), input, dotText = dot::text(a);
  auto goodPattern = [&](Args &p, bool allowDot = true) { // ... as an option
    isDot = allowDot && s.chance(1, 2);
    if (isDot)
      opt(s, p, "-f", "--automaton", file(dotText));
    else
      opt(s, p, "-e", "--expression", text);
  };
  auto goodLog = [&](Args &p) {
    if (s.chance(1, 2))
      opt(s, p, "-i", "--input", file(log));
    else
      input = log;
  };
  auto harmless = [&](Args &p) {
    if (s.chance(1, 4))
      p.push_back(s.elem(Args{"-a", "--ascii"}));
    if (s.chance(1, 4))
      p.push_back(s.elem(Args{"-E", "--event"}));
  };
  auto shuffle = [&](std::vector<Args> groups) {
    for (size_t i = groups.size(); i > 1; i--)
      std::swap(groups[i - 1], groups[s.below(uint32_t(i))]);
    Args r;
    for (auto &g : groups)
      r.insert(r.end(), g.begin(), g.end());
    return r;
  };
  auto missing = [&]() -> std::string {
    switch (s.below(3)) {
    case 0: return "/nonexistent/file";
    case 1: return file("x") + "/below";
    default: return "no-such-file-" + std::to_string(s.below(1000));
    }
  };
  auto badText = [&]() -> std::string { // rejected by the documented syntax, on one line
    for (int tries = 0; tries < 6; tries++) {
      std::string t = mutateBytes(s, text, {"(", ")", "%", "|", "&", "[", "]", ",", "<", "?", "0%", "{", "99999999999"}, false);
      t.erase(std::remove_if(t.begin(), t.end(), [](char c) { return c == 0 || c == '\n'; }), t.end());
      if (t.empty() || t[0] == '=')
        continue;
      try {
        tre::Reader r(t);
        r.all();
      } catch (tre::Bad &) {
        return t;
      }
    }
    return "(" + text;
  };

  bool translator = false;
  Args args;
  Exits want;
  std::string kind;
  bool quiet = false, zones = false, usage = false, version = false, heavy = false;
  ora::Fed signalZones;
  bool signalMode = false;
  switch (s.pick({6, 2, 2, 3, 3, 3, 4, 6, 4, 3, 3})) {
  case 0: { // an ordinary run
    kind = "ordinary run";
    Args p, l, h;
    goodPattern(p);
    goodLog(l);
    harmless(h);
    quiet = s.chance(1, 2);
    if (quiet)
      h.push_back(s.elem(Args{"-q", "--quiet"}));
    zones = !quiet;
    args = shuffle({p, l, h});
    want = {okExit};
    break;
  }
  case 1: { // help, version, nothing
    kind = "help or version";
    translator = s.chance(1, 3);
    Args p, h;
    int k = s.below(3);
    usage = k != 1;
    version = k == 1;
    if (k == 0)
      h.push_back(s.elem(Args{"-h", "--help"}));
    else if (k == 1)
      h.push_back(s.elem(Args{"-V", "--version"}));
    if (k < 2 && s.chance(1, 2)) {
      if (translator)
        opt(s, p, "-e", "--expression", text);
      else
        goodPattern(p);
    }
    if (!translator && k < 2)
      harmless(p);
    args = shuffle({p, h});
    want = {0};
    break;
  }
  case 2: { // options in conflict
    kind = "conflict";
    Args p, l, c;
    int k = s.below(4);
    goodLog(l);
    if (k == 0) {
      goodPattern(p);
      c = {s.elem(Args{"-a", "--ascii"}), s.elem(Args{"-b", "--binary"})};
    } else if (k == 1) {
      goodPattern(p);
      c = {s.elem(Args{"-E", "--event"}), s.elem(Args{"-S", "--signal"})};
    } else if (k == 2) {
      opt(s, p, "-f", "--automaton", file(dotText));
      opt(s, c, "-e", "--expression", text);
    } else {
      opt(s, p, "-f", "--automaton", file(dotText));
      c = {s.elem(Args{"-S", "--signal"})};
    }
    args = shuffle({p, l, c});
    want = {1};
    break;
  }
  case 3: { // unknown options, options without their values
    kind = "option error";
    translator = s.chance(1, 3);
    Args p, l, c;
    bool noValue = s.chance(1, 2);
    if (noValue) {
      if (translator) {
        if (s.chance(1, 2))
          p.push_back(text);
        p.push_back(s.elem(Args{"-o", "--output-file", "-e", "--expression"}));
      } else {
        bool pat = s.chance(1, 2);
        if (pat)
          goodPattern(p);
        p.push_back(pat ? s.elem(Args{"-i", "--input"})
                        : s.elem(Args{"-i", "--input", "-f", "--automaton", "-e", "--expression"}));
      }
      args = p;
    } else {
      if (translator) {
        if (s.chance(1, 2))
          opt(s, p, "-e", "--expression", text);
      } else if (s.chance(2, 3)) {
        goodPattern(p);
        goodLog(l);
      }
      c.push_back(s.elem(Args{"-z", "-x", "--unknown", "--foo=1", "-Z", "--colour", "-1"}));
      args = shuffle({p, l, c});
    }
    want = {1};
    break;
  }
  case 4: { // files that cannot be opened
    kind = "missing file";
    Args p, l;
    switch (s.below(4)) {
    case 0:
      goodPattern(p);
      opt(s, l, "-i", "--input", missing());
      break;
    case 1:
      goodPattern(p);
      l.push_back(missing());
      break;
    case 2:
      opt(s, p, "-f", "--automaton", missing());
      goodLog(l);
      break;
    default:
      translator = true;
      opt(s, p, "-e", "--expression", text);
      opt(s, l, "-o", "--output-file", s.chance(1, 2) ? "/nonexistent/out" : "/dev/full");
    }
    args = shuffle({p, l});
    want = {1};
    break;
  }
  case 5: { // texts that are not expressions
    kind = "expression error";
    translator = s.chance(1, 3);
    Args p, l;
    std::string t = badText();
    if (t[0] != '-' && s.chance(1, 2))
      p.push_back(t);
    else
      opt(s, p, "-e", "--expression", t);
    if (!translator)
      goodLog(l);
    args = shuffle({p, l});
    want = {2};
    break;
  }
  case 6: { // texts that are not automata
    kind = "automaton error";
    Args p, l;
    std::string t = dotText;
    switch (s.below(5)) {
    case 4: { // outside what can be represented
      std::string bad = s.elem(Args{"label=\"\xff\"", "label=\"\x7f\"", "label=\"\x80\"", "reset=\"{300}\"", "reset=\"{-1}\"",
                                    "guard=\"{x300 > 1}\"", "guard=\"{x-1 > 1}\"", "guard=\"{x0 > 99999999999}\"", "label=\"ab\"",
                                    "guard=\"{x0 = 1}\"", "reset=\"{x0}\"", "guard=\"x0 > 1\""});
      t.insert(t.rfind('}'), "1->1 [" + bad + "];\n");
      break;
    }
    case 0: t.resize(s.below(uint32_t(t.rfind('}')))); break;        // ends early
    case 1: t = s.chance(1, 2) ? "" : text; break;                   // something else
    case 2: t.erase(t.find('{'), 1); break;
    default: t.insert(t.find('[') + 1, s.elem(Args{"=", "]", "{", "->"}));
    }
    opt(s, p, "-f", "--automaton", file(t));
    goodLog(l);
    args = shuffle({p, l});
    ctx.desc << "automaton: " << t << "\n";
    want = {2};
    break;
  }
  case 7: { // automata with errors anywhere
    kind = "damaged automaton";
    Args p, l;
    std::string t = mutateBytes(s, dotText,
                                {"init=1", "match=1", "label=\"a\"", "label=\"\"", "reset=\"{0}\"", "reset=\"{}\"",
                                 "guard=\"{x0 > 1}\"", "guard=\"{x0 >}\"", "guard=\"{x9 > 1}\"", "guard=\"\"", ",", ";",
                                 "]", "[", "->", "1", "\"", "{", "}", "init=a", "reset=\"{-1}\"", "guard=\"{x0 > -1}\"",
                                 "label=\"ab\"", "init=2", "subgraph", "graph", "\\", "/*"},
                                true);
    if (!balancedDigits(t))
      t = dotText;
    opt(s, p, "-f", "--automaton", file(t));
    goodLog(l);
    args = shuffle({p, l});
    ctx.desc << "automaton: " << t << "\n";
    want = {0, 2, 10};
    heavy = true;
    break;
  }
  case 8: { // logs with errors
    kind = "damaged log";
    Args p, l;
    bool bin = s.chance(1, 3);
    log = bin ? cli::binary(w) : cli::ascii(s, w);
    log = mutateBytes(s, log, {" ", "\n", "a", "1", ".", "-", "nan", "inf", "1e308", "-5", "a a a", "0x1p3", "$ 1\n"}, false);
    goodPattern(p);
    goodLog(l);
    if (bin)
      l.push_back("-b");
    args = shuffle({p, l});
    ctx.desc << "log: " << log << "\n";
    want = {okExit};
    heavy = true;
    break;
  }
  case 10: { // signal mode, against the library in this process
    kind = "signal mode";
    signalMode = true;
    tre::Writer wr{s, int(s.pick({3, 1}) * 4), ""};
    wr.expr(body, false);
    auto lib = sut::parseTre(wr.o);
    ctx.check(bool(lib), "the expression is not parsed");
    gen::limitRuns(a, w, 100);
    log = ora::logText(w);
    TimedAutomaton S;
    AnsVec<Zone> ans;
    sut::FileWord fw(w);
    try {
      toSignalTA(lib, S);
      int st = pbt::callCatchingExit([&] {
        pbt::withBudget(600, 80000, [&] { ::monaa(sut::LazyContainer(fw.f), S, ans); });
      });
      want = {st == -1 ? 0 : st};
    } catch (const char *) {
      want = {2};
    } catch (std::bad_alloc &) {
      throw pbt::Discard();
    }
    signalZones = sut::zones(ans, err);
    ctx.check(err.empty(), err);
    Args p, l;
    if (s.chance(1, 2))
      opt(s, p, "-e", "--expression", wr.o);
    else if (wr.o[0] != '-')
      p.push_back(wr.o);
    else
      p.push_back("--expression=" + wr.o);
    goodLog(l);
    args = shuffle({p, l, {s.elem(Args{"-S", "--signal"})}});
    if (s.chance(1, 3)) {
      quiet = true;
      args.insert(args.begin(), s.elem(Args{"-q", "--quiet"}));
    }
    break;
  }
  default: { // the translator
    kind = "translation";
    translator = true;
    Args p, l;
    if (s.chance(1, 2))
      p.push_back(text);
    else
      opt(s, p, "-e", "--expression", text);
    if (s.chance(1, 2))
      opt(s, l, "-o", "--output-file", file(""));
    args = shuffle({p, l});
    want = {0};
  }
  }
  // options that change neither the status nor the messages
  if (!translator && !version && !usage && kind != "ordinary run" && kind != "signal mode" && s.chance(1, 3)) {
    quiet = true;
    args.insert(args.begin(), s.elem(Args{"-q", "--quiet"}));
  }
  if (!translator && kind != "conflict" && kind != "signal mode" && std::find(args.begin(), args.end(), "-E") == args.end() &&
      std::find(args.begin(), args.end(), "--event") == args.end() && s.chance(1, 8)) {
    if (kind == "expression error" || kind == "option error" || (kind == "missing file" && !isDot))
      args.insert(args.begin(), s.elem(Args{"-S", "--signal"}));
    else
      args.insert(args.begin(), s.elem(Args{"-E", "--event"}));
  }
  ctx.label(kind);
  std::string what = (translator ? "tre2ta" : "monaa") + cli::show(args) + ": ";
  ctx.desc << what << kind << "\n";
  cli::Run r = cli::run(translator ? tre2ta : monaa, args, input, heavy ? 3 : cli::kCpu);
  if (heavy && r.signal == SIGXCPU)
    throw pbt::Discard();
  ctx.check(!r.signal, what + "ends by signal " + std::to_string(r.signal) + ": " + r.err);
  std::string expected;
  for (int x : want)
    expected += " " + std::to_string(x);
  ctx.check(want.count(r.exit), what + "exit status " + std::to_string(r.exit) + ", expected" + expected + ": " + r.err);
  if (quiet)
    ctx.check(r.out.empty(), what + "quiet mode prints " + r.out.substr(0, 200));
  if (r.exit == 1 || r.exit == 2) {
    ctx.check(r.out.empty(), what + "prints to standard output in spite of the error: " + r.out.substr(0, 200));
    ctx.check(!r.err.empty(), what + "fails without a message");
  }
  if (usage)
    for (std::string x : {"--help", "--version", "--expression", "PATTERN"})
      ctx.check(r.out.find(x) != std::string::npos, what + "the help does not mention " + x);
  if (usage && !translator)
    for (std::string x : {"--quiet", "--ascii", "--binary", "--event", "--signal", "--input", "--automaton", "FILE"})
      ctx.check(r.out.find(x) != std::string::npos, what + "the help does not mention " + x);
  if (version)
    ctx.check(r.out.find("MONAA") != std::string::npos, what + "the version is not printed");
  if (zones) {
    ora::Fed got;
    ctx.check(cli::parseZones(r.out, got, err), what + err);
    auto c = ora::compare(got, ora::matchTRE(e, w), w, [](int i, int j) { return i < j; });
    ctx.check(c.error.empty(), what + c.error);
    if (c.covered)
      ctx.label("zones printed");
  }
  if (signalMode && !quiet && r.exit == 0) {
    ora::Fed got;
    ctx.check(cli::parseZones(r.out, got, err), what + err);
    ora::Fed x = ora::minus(got, signalZones), y = ora::minus(signalZones, got);
    ctx.check(x.empty(), what + "prints what the library does not report: " + (x.empty() ? "" : ora::show(x[0])));
    ctx.check(y.empty(), what + "does not print what the library reports: " + (y.empty() ? "" : ora::show(y[0])));
    if (!got.empty())
      ctx.label("zones printed");
  }
  ctx.nontrivial = !args.empty();
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
