// C17: results do not depend on what the process did before, and inputs stay as
// they are.  A random history of calls on shared objects; every call is also made
// on fresh objects in a process of its own.
#include <sys/wait.h>
#include "sut_tre.hh"
#include "ta2za.hh"
#include "timed_automaton_parser.hh"

struct Step {
  int kind; // 0..2 matchers, 3 match an expression, 4 product and match, 5 emptiness and reachability, 6 write, 7 copy and match,
            // 8 match an expression in signal mode, 9 write, read and match, 10 parse what is wrong, then match an expression
  int x, y, log;
};
struct Pool { // what the calls work on
  std::vector<ora::TA> tas;
  std::vector<ora::T> exprs;
  std::vector<ora::Word> logs;
  std::vector<std::vector<int>> perms;
};
struct Live { // the library's objects, created on first use
  const Pool &p;
  std::vector<std::unique_ptr<TimedAutomaton>> tas;
  std::vector<std::shared_ptr<const TRE>> exprs;
  explicit Live(const Pool &p) : p(p), tas(p.tas.size()), exprs(p.exprs.size()) {}
  TimedAutomaton &ta(int k) {
    auto &t = tas[size_t(k)];
    if (!t) {
      t = std::make_unique<TimedAutomaton>();
      sut::build(p.tas[size_t(k)], *t, p.perms[size_t(k)]);
    }
    return *t;
  }
  std::shared_ptr<const TRE> expr(int k) {
    auto &e = exprs[size_t(k)];
    if (!e)
      e = sut::parseTre(ora::text(p.exprs[size_t(k)]));
    return e;
  }
};
struct Result {
  std::vector<int64_t> v; // status, number of zones, their bounds; or other numbers
};
static std::multiset<std::string> shape(const TimedAutomaton &A, std::string &err) {
  ora::TA a = sut::readBack(A, err);
  std::multiset<std::string> r;
  for (int i = 0; i < a.n; i++)
    r.insert("state " + std::to_string(i) + (a.init[size_t(i)] ? " init" : "") + (a.acc[size_t(i)] ? " acc" : ""));
  for (auto &e : a.edges) {
    std::ostringstream o;
    o << e.src << ' ' << e.dst << ' ' << int(e.c);
    for (auto &g : e.guard)
      o << " x" << g.x << ora::opText(g.op) << g.c;
    for (int x : e.reset)
      o << " r" << x;
    r.insert(o.str());
  }
  std::ostringstream o;
  for (int m : A.maxConstraints)
    o << " " << m;
  r.insert("max" + o.str());
  return r;
}

static Result perform(Live &l, const Step &st) {
  const Pool &p = l.p;
  Result r;
  AnsVec<Zone> ans;
  const ora::Word &w = l.p.logs[size_t(st.log)];
  TimedAutomaton own;
  auto match = [&](int matcher, const TimedAutomaton &A, uint64_t big = sut::kBig, uint64_t all = sut::kAll) {
    sut::FileWord fw(w);
    bool over = false;
    int status = pbt::callCatchingExit([&] {
      try {
        pbt::withBudget(big, all, [&] {
          if (matcher == 0)
            monaaDollar(sut::LazyContainer(fw.f), A, ans);
          else if (matcher == 1)
            monaaNotNecessaryDollar(sut::LazyContainer(fw.f), A, ans);
          else
            monaa(sut::LazyContainer(fw.f), A, ans);
        });
      } catch (std::bad_alloc &) { // or the memory is used up
        over = true;
      }
    });
    r.v.push_back(over ? -100 : status);
    if (over || status != -1)
      return;
    std::string err;
    ora::Fed f = sut::zones(ans, err);
    r.v.push_back(err.empty() ? 0 : 1);
    for (auto &z : f)
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
          r.v.push_back(z.m[i][j]);
  };
  switch (st.kind) {
  case 0: case 1: case 2: match(st.kind, l.ta(st.x)); break;
  case 3: {
    l.expr(st.x)->toEventTA(own);
    match(0, own);
    break;
  }
  case 8: { // the same expression: its `$` is a value like others
    try {
      toSignalTA(l.expr(st.x), own);
    } catch (const char *) { // refused as too large
      r.v.push_back(-5);
      break;
    }
    match(2, own, 600, 80000);
    break;
  }
  case 9: {
    std::stringstream ss;
    ss << l.ta(st.x);
    BoostTimedAutomaton b;
    parseBoostTA(ss, b);
    convBoostTA(b, own);
    match(st.log % 3, own);
    break;
  }
  case 10: {
    std::string text = ora::text(p.exprs[size_t(st.x)]);
    std::string wrong = st.y == 0 ? "(" + text : st.y == 1 ? text + "%(2," : text.substr(0, text.size() / 2);
    std::stringstream ss(wrong);
    TREDriver d;
    d.parse(ss);
    auto e = sut::parseTre(text);
    if (!e) {
      r.v.push_back(-4);
      break;
    }
    e->toEventTA(own);
    match(0, own);
    break;
  }
  case 4: {
    boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m;
    TimedAutomaton &a = l.ta(st.x), &b = l.ta(st.y);
    intersectionTA(a, b, own, m);
    match(st.log % 2, own);
    break;
  }
  case 5: {
    ZoneAutomaton ZA;
    TimedAutomaton &a = l.ta(st.x);
    ta2za(a, ZA);
    std::set<int> reach;
    for (auto &z : ZA.states)
      for (size_t i = 0; i < a.states.size(); i++)
        if (z->taState == a.states[i].get())
          reach.insert(int(i));
    r.v.push_back(-2);
    r.v.push_back(ZA.empty());
    for (int i : reach)
      r.v.push_back(i);
    break;
  }
  case 6: {
    std::ostringstream o;
    o << l.ta(st.x);
    std::multiset<std::string> lines;
    std::istringstream is(o.str());
    for (std::string s; std::getline(is, s);)
      lines.insert(s);
    std::string all;
    for (auto &s : lines)
      all += s;
    r.v.push_back(-3);
    r.v.push_back(int64_t(pbt::fnv(all)));
    break;
  }
  default: {
    std::unordered_map<TAState *, std::shared_ptr<TAState>> m;
    l.ta(st.x).deepCopy(own, m);
    match(st.log % 3, own);
  }
  }
  return r;
}
static ora::Fed fed(const Result &r) {
  ora::Fed f;
  for (size_t i = 2; i + 9 <= r.v.size(); i += 9) {
    ora::Z z;
    for (int k = 0; k < 9; k++)
      z.m[k / 3][k % 3] = r.v[i + size_t(k)];
    ora::addZone(f, z);
  }
  return f;
}

static Result inFreshProcess(const Pool &p, const Step &st, bool &ok) {
  int fd[2];
  ok = false;
  if (pipe(fd))
    throw pbt::Discard();
  pid_t pid = fork();
  if (pid < 0)
    throw pbt::Discard();
  if (pid == 0) {
    close(fd[0]);
    Live l(p);
    Result r = perform(l, st);
    size_t n = r.v.size() * sizeof(int64_t), at = 0;
    while (at < n) {
      ssize_t k = write(fd[1], reinterpret_cast<char *>(r.v.data()) + at, n - at);
      if (k <= 0)
        _exit(1);
      at += size_t(k);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string all;
  char buf[65536];
  for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;)
    all.append(buf, size_t(k));
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  Result r;
  ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
  r.v.resize(all.size() / sizeof(int64_t));
  memcpy(r.v.data(), all.data(), r.v.size() * sizeof(int64_t));
  return r;
}

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  Pool p;
  std::string sigma = gen::alphabet(s);
  int nta = s.range(1, 3), nex = s.range(1, 2), nlog = s.range(1, 2);
  for (int k = 0; k < nta; k++) {
    gen::TAOpt o;
    o.sigma = sigma;
    o.maxStates = 3;
    o.maxClocks = s.pick({6, 1}) ? 2 : 1;
    o.maxExtra = 3;
    o.dollar = s.chance(1, 2);
    o.freeAccept = !o.dollar && s.chance(1, 2);
    p.tas.push_back(gen::automaton(s, o));
    p.perms.push_back(sut::permutation(s, p.tas.back().n));
    ctx.desc << "A" << k << ": " << ora::show(p.tas.back());
  }
  for (int k = 0; k < nex; k++) {
    gen::TreOpt o;
    o.sigma = sigma;
    o.conj = s.chance(1, 2);
    p.exprs.push_back(ora::mkT(ora::Tre::Cat, gen::tre(s, o, s.range(1, 5)), ora::atom('$')));
    ctx.desc << "E" << k << ": " << ora::text(p.exprs.back()) << "\n";
  }
  for (int k = 0; k < nlog; k++) {
    ora::Word w;
    if (s.chance(1, 2))
      w = gen::logFor(s, p.tas[size_t(s.range(0, nta - 1))], sigma, 9);
    else {
      w = gen::timedSample(s, p.exprs[size_t(s.range(0, nex - 1))]->l, 6);
      gen::appendWord(w, gen::timedSample(s, p.exprs[0]->l, 6), gen::gap(s));
      for (size_t i = 0; i < w.size(); i++)
        w[i].t = std::max<int64_t>(w[i].t, i ? w[i - 1].t + 1 : 1);
    }
    if (w.size() > 8)
      w.resize(8);
    p.logs.push_back(w);
    ctx.desc << "L" << k << ": " << ora::show(w) << "\n";
  }
  static const char *const names[] = {"match $", "match optional $", "match next change", "match expression",
                                      "product",  "emptiness",        "write",             "copy",
                                      "match in signal mode", "read",     "parse"};
  int n = s.range(2, 6);
  std::vector<Step> steps;
  for (int k = 0; k < n; k++) {
    Step st{int(s.below(11)), 0, 0, s.range(0, nlog - 1)};
    st.x = st.kind == 3 || st.kind == 8 || st.kind == 10 ? s.range(0, nex - 1) : s.range(0, nta - 1);
    st.y = s.range(0, nta - 1);
    steps.push_back(st);
    ctx.desc << names[st.kind] << " " << st.x << (st.kind == 4 ? "x" + std::to_string(st.y) : "") << " L" << st.log << "; ";
  }
  for (auto &a : p.tas)
    for (auto &w : p.logs)
      gen::limitRuns(a, w, 30);
  int scale = gen::scaleFactor(s);
  for (auto &a : p.tas)
    gen::scaleTA(a, scale);
  for (auto &e : p.exprs)
    e = gen::scaleTre(e, scale);
  for (auto &w : p.logs)
    gen::scaleWord(s, w, scale, false);
  if (scale > 1)
    ctx.desc << "\nscaled by " << scale << "\n";
  std::vector<Result> fresh;
  for (auto &st : steps) {
    bool ok;
    fresh.push_back(inFreshProcess(p, st, ok));
    ctx.check(ok, std::string("the call in a fresh process ends abnormally: ") + names[st.kind]);
  }
  Live l(p);
  std::set<int> kinds;
  int zones = 0;
  for (size_t k = 0; k < steps.size(); k++) {
    Step &st = steps[k];
    std::string err, what = "call " + std::to_string(k + 1) + " (" + names[st.kind] + ")";
    std::vector<std::multiset<std::string>> before;
    for (int i = 0; i < nta; i++)
      before.push_back(shape(l.ta(i), err));
    Result r = perform(l, st);
    for (int i = 0; i < nta; i++)
      ctx.check(shape(l.ta(i), err) == before[size_t(i)], what + " changes the automaton A" + std::to_string(i));
    ctx.check(err.empty(), what + ": " + err);
    const Result &f = fresh[k];
    ctx.check(!r.v.empty() && !f.v.empty(), "HARNESS: no result");
    if (r.v[0] == -100 || f.v[0] == -100) {
      ctx.label("over budget");
      continue;
    }
    kinds.insert(st.kind);
    ctx.check(r.v[0] == f.v[0], what + ": status " + std::to_string(r.v[0]) + " instead of " + std::to_string(f.v[0]));
    if (r.v[0] != -1) {
      ctx.check(r.v == f.v, what + ": another result than in a fresh process");
      continue;
    }
    ctx.check(r.v[1] == f.v[1], what + ": unreadable bounds");
    ora::Fed a = fed(r), b = fed(f);
    zones += int(a.size());
    ora::Fed x = ora::minus(a, b), y = ora::minus(b, a);
    ctx.check(x.empty(), what + " reports what a fresh process does not: " + (x.empty() ? "" : ora::show(x[0])));
    ctx.check(y.empty(), what + " misses what a fresh process reports: " + (y.empty() ? "" : ora::show(y[0])));
    ctx.check(a.empty() == b.empty(), what + ": none or some zones");
    ctx.label(names[st.kind]);
  }
  ctx.nontrivial = kinds.size() >= 2 && zones > 0;
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
