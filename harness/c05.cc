// C05: every way of running the tools on a pattern and a log gives the same answer,
// the set of all matches.
#include "treref.hh"
#include "cli.hh"
#include "dot.hh"

using Args = std::vector<std::string>;
static void opt(pbt::Src &s, Args &a, const char *sh, const char *lg, const std::string &v) {
  switch (s.below(4)) {
  case 0: a.push_back(sh), a.push_back(v); break;
  case 1: a.push_back(lg), a.push_back(v); break;
  case 2: a.push_back(std::string(lg) + "=" + v); break;
  default: a.push_back(sh + v);
  }
}

// The routes of signal mode: the expression positionally or with -e.
static void signalRoutes(pbt::Src &s, pbt::Ctx &ctx) {
  std::string sigma = gen::alphabet(s);
  gen::TreOpt o;
  o.sigma = sigma;
  o.conj = s.chance(1, 4);
  ora::T e = gen::tre(s, o, s.range(1, 5));
  ora::Word w = gen::logFor(s, e, sigma, 8), v;
  for (auto &x : w) // values differ from their neighbours'
    if (!v.empty() && v.back().c == x.c)
      v.back().t = x.t;
    else
      v.push_back(x);
  w = v;
  tre::Writer wr{s, int(s.pick({2, 1, 1}) * 3), ""};
  wr.expr(e, false);
  std::string exprText = wr.o, err;
  while (!exprText.empty() && (exprText.back() == ' ' || exprText.back() == '\t'))
    exprText.pop_back();
  ctx.desc << "signal mode: " << exprText << "\nsignal: " << ora::show(w) << "\n";
  auto lib = sut::parseTre(exprText);
  ctx.check(bool(lib), "the expression is not parsed");
  AnsVec<Zone> ans;
  int status = -1;
  try {
    status = pbt::callCatchingExit([&] {
      pbt::withBudget(600, 80000, [&] {
        TimedAutomaton A;
        toSignalTA(lib, A);
        monaa(sut::MemContainer(w), A, ans);
      });
    });
  } catch (std::bad_alloc &) {
    throw pbt::Discard();
  } catch (const char *) { // too large
    throw pbt::Discard();
  }
  ctx.check(status == -1 || status == 10, "unexpected exit " + std::to_string(status));
  ora::Fed lf = sut::zones(ans, err);
  ctx.check(err.empty(), err);
  if (status == 10)
    lf.clear();
  std::vector<std::unique_ptr<cli::File>> files;
  auto file = [&](const std::string &c) {
    files.push_back(std::make_unique<cli::File>(c));
    return files.back()->name();
  };
  std::set<std::string> routes;
  for (int k = s.range(2, 3); k > 0; k--) {
    Args pat, pos, logArgs, mode{s.chance(1, 2) ? "-S" : "--signal"};
    std::string route = "positional", input;
    if (s.chance(1, 2))
      pos.push_back(exprText);
    else {
      route = "-e";
      opt(s, pat, "-e", "--expression", exprText);
    }
    bool bin = s.chance(1, 3);
    std::string log = bin ? cli::binary(w) : s.chance(1, 2) ? cli::ascii(s, w) : ora::logText(w);
    switch (s.below(3)) {
    case 0:
      input = log;
      route += ", standard input";
      break;
    case 1:
      opt(s, logArgs, "-i", "--input", file(log));
      route += ", -i";
      break;
    default:
      pos.push_back(file(log));
      route += ", positional";
    }
    if (bin)
      logArgs.push_back(s.chance(1, 2) ? "-b" : "--binary");
    Args args;
    std::vector<Args *> groups{&pat, &logArgs, &pos, &mode};
    for (size_t i = groups.size(); i > 1; i--)
      std::swap(groups[i - 1], groups[s.below(uint32_t(i))]);
    for (auto *g : groups)
      args.insert(args.end(), g->begin(), g->end());
    routes.insert(route + (bin ? ", binary" : ", text"));
    cli::Run r = cli::run(cli::tool("MONAA"), args, input);
    std::string what = "monaa" + cli::show(args) + " (" + route + "): ";
    if (r.signal == SIGXCPU)
      throw pbt::Discard();
    ctx.check(!r.signal, what + "signal " + std::to_string(r.signal) + " " + r.err);
    ctx.check(r.exit == (status == 10 ? 10 : 0), what + "exit status " + std::to_string(r.exit) + " " + r.err);
    ora::Fed got;
    ctx.check(cli::parseZones(r.out, got, err), what + err);
    ora::Fed x = ora::minus(got, lf), y = ora::minus(lf, got);
    ctx.check(x.empty(), what + "only this route reports " + (x.empty() ? "" : ora::show(x[0])));
    ctx.check(y.empty(), what + "this route misses " + (y.empty() ? "" : ora::show(y[0])));
  }
  ctx.nontrivial = !lf.empty() && routes.size() >= 2;
  ctx.label("signal mode");
}

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  if (s.chance(1, 6))
    return signalRoutes(s, ctx);
  std::string sigma = gen::alphabet(s);
  bool expr = s.chance(2, 3);
  int scale = gen::scaleFactor(s);
  ora::T e;
  ora::TA a;
  ora::Word w;
  std::string exprText;
  std::vector<std::unique_ptr<cli::File>> files;
  auto file = [&](const std::string &c) {
    files.push_back(std::make_unique<cli::File>(c));
    return files.back()->name();
  };
  TimedAutomaton A;
  std::string err;
  if (expr) {
    gen::TreOpt o;
    o.sigma = sigma;
    o.conj = s.chance(1, 3);
    ora::T body = gen::tre(s, o, s.range(1, 5));
    e = ora::mkT(ora::Tre::Cat, body, ora::atom('$'));
    if (s.chance(1, 4)) {
      e = ora::mkT(ora::Tre::Within, e);
      e->iv = gen::interval(s);
      if (e->iv.hi >= 0 || true)
        e->form = int(s.below(4));
    }
    w = gen::logFor(s, body, sigma, 12);
    e = gen::scaleTre(e, scale);
    tre::Writer wr{s, int(s.pick({2, 1, 1}) * 3), ""};
    wr.expr(e, false);
    exprText = wr.o;
    while (!exprText.empty() && (exprText.back() == ' ' || exprText.back() == '\t'))
      exprText.pop_back();
    ctx.desc << exprText << "\n";
    auto lib = sut::parseTre(exprText);
    ctx.check(bool(lib), "the expression is not parsed");
    lib->toEventTA(A);
    a = sut::readBack(A, err);
    ctx.check(err.empty(), err);
  } else {
    gen::TAOpt o;
    o.sigma = sigma;
    o.maxStates = 5;
    o.maxClocks = 2;
    a = gen::automaton(s, o);
    w = gen::logFor(s, a, sigma, 12);
    gen::scaleTA(a, scale);
    sut::build(a, A, sut::permutation(s, a.n));
    ctx.desc << ora::show(a);
  }
  gen::limitRuns(a, w, 1000);
  gen::scaleWord(s, w, scale);
  ctx.desc << "log: " << ora::show(w) << "\n";
  // leave out patterns whose skip tables are too large
  int status = pbt::callCatchingExit([&] {
    pbt::withBudget(sut::kBig, sut::kAll, [&] {
      AnsVec<Zone> ans;
      monaaDollar(sut::MemContainer(w), A, ans);
    });
  });
  ctx.check(status == -1 || status == 10, "unexpected exit " + std::to_string(status));
  auto ref = expr ? ora::matchTRE(e, w) : ora::matchTA(a, w, ora::EndRule::Dollar);
  const std::string monaa = cli::tool("MONAA"), tre2ta = cli::tool("TRE2TA");
  int runs = s.range(2, 4);
  size_t covered = 0;
  std::set<std::string> routes;
  for (int k = 0; k < runs; k++) {
    std::string route;
    // the pattern
    Args pat, pos;
    if (!expr) {
      route = "DOT";
      std::string text = dot::text(a);
      if (s.chance(1, 3)) {
        std::ostringstream o;
        o << A;
        text = o.str();
      }
      opt(s, pat, "-f", "--automaton", file(text));
    } else
      switch (s.below(4)) {
      case 0:
        route = "positional";
        pos.push_back(exprText);
        break;
      case 1:
        route = "-e";
        opt(s, pat, "-e", "--expression", exprText);
        break;
      default: { // translated first
        Args t;
        bool named = s.chance(1, 2);
        std::string name;
        route = named ? "translated to a file" : "translated to standard output";
        if (s.chance(1, 2))
          opt(s, t, "-e", "--expression", exprText);
        else
          t.push_back(exprText);
        if (named) {
          // overwrites what is there
          name = file(s.chance(1, 2) ? "" : std::string(5000, 'x'));
          Args o;
          opt(s, o, "-o", "--output-file", name);
          t.insert(s.chance(1, 2) ? t.begin() : t.end(), o.begin(), o.end());
        }
        cli::Run r = cli::run(tre2ta, t, "");
        ctx.check(!r.signal && r.exit == 0, "tre2ta" + cli::show(t) + " ends with " + std::to_string(r.exit) +
                                                (r.signal ? " signal " + std::to_string(r.signal) : "") + ": " + r.err);
        if (!named)
          name = file(r.out);
        else
          ctx.check(r.out.empty(), "tre2ta -o writes to standard output: " + r.out);
        opt(s, pat, "-f", "--automaton", name);
      }
      }
    // the log
    bool bin = s.chance(1, 3);
    std::string log = bin ? cli::binary(w) : s.chance(1, 2) ? cli::ascii(s, w) : ora::logText(w), input;
    Args logArgs;
    switch (s.below(3)) {
    case 0:
      input = log;
      route += ", standard input";
      break;
    case 1:
      opt(s, logArgs, "-i", "--input", file(log));
      input = s.chance(1, 3) ? ora::logText(w) : "";
      route += ", -i";
      break;
    default:
      pos.push_back(file(log));
      route += ", positional";
    }
    if (bin)
      logArgs.push_back(s.chance(1, 2) ? "-b" : "--binary");
    else if (s.chance(1, 3))
      logArgs.push_back(s.chance(1, 2) ? "-a" : "--ascii");
    if (s.chance(1, 4))
      logArgs.push_back(s.chance(1, 2) ? "-E" : "--event");
    route += bin ? ", binary" : ", text";
    // any order of the groups
    Args args;
    std::vector<Args *> groups{&pat, &logArgs, &pos};
    for (size_t i = groups.size(); i > 1; i--)
      std::swap(groups[i - 1], groups[s.below(uint32_t(i))]);
    for (auto *g : groups)
      args.insert(args.end(), g->begin(), g->end());
    routes.insert(route);
    ctx.label(route.substr(0, route.find(',')));
    cli::Run r = cli::run(monaa, args, input);
    std::string what = "monaa" + cli::show(args) + " (" + route + "): ";
    ctx.check(!r.signal, what + "signal " + std::to_string(r.signal) + " " + r.err);
    ctx.check(r.exit == (status == 10 ? 10 : 0), what + "exit status " + std::to_string(r.exit) + " " + r.err);
    ora::Fed got;
    ctx.check(cli::parseZones(r.out, got, err), what + err);
    auto c = ora::compare(got, ref, w, [](int i, int j) { return i < j; });
    ctx.check(c.error.empty(), what + c.error);
    covered = c.covered;
  }
  ctx.nontrivial = covered > 0 && routes.size() >= 2;
  if (covered)
    ctx.label("has matches");
  if (status == 10)
    ctx.label("empty pattern");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
