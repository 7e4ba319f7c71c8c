// C21: what happens to a zone once it is reported: the answer containers keep,
// count or print it.
#include "sut.hh"
#include <sys/mman.h>
#include <regex>

namespace {
// standard output, caught in memory
class Capture {
public:
  Capture() {
    fflush(stdout);
    was = dup(1);
    fd = memfd_create("out", 0);
    if (was < 0 || fd < 0 || dup2(fd, 1) < 0)
      _exit(98);
  }
  std::string end() {
    if (was < 0)
      return text;
    fflush(stdout);
    dup2(was, 1);
    close(was);
    was = -1;
    char buf[65536];
    ssize_t n;
    off_t at = 0;
    while ((n = pread(fd, buf, sizeof buf, at)) > 0) {
      text.append(buf, size_t(n));
      at += n;
    }
    close(fd);
    return text;
  }
  ~Capture() { end(); }

private:
  int fd = -1, was = -1;
  std::string text;
};
bool same(double a, double b) {
  if (std::isinf(a) || std::isinf(b))
    return a == b;
  return std::fabs(a - b) <= 0.51e-6 + 1e-15 * std::fabs(a);
}
// the printed text against the zones, which were reported in this order
std::string judge(const std::string &out, const std::vector<Zone> &zs) {
  static const std::regex line("^ *(-?[0-9]+\\.[0-9]+|-?inf) +(<=?) +(t|t'|t' - t) +(<=?) +(-?[0-9]+\\.[0-9]+|-?inf) *$");
  static const char *names[3] = {"t", "t'", "t' - t"};
  static const int lo[3][2] = {{0, 1}, {0, 2}, {1, 2}};
  std::istringstream is(out);
  std::string l;
  for (auto &z : zs) {
    for (int k = 0; k < 3; k++) {
      std::smatch m;
      if (!std::getline(is, l) || !std::regex_match(l, m, line) || m[3] != names[k])
        return std::string("not the line of ") + names[k] + ": " + l;
      Bounds L = z.value(lo[k][0], lo[k][1]), U = z.value(lo[k][1], lo[k][0]);
      std::ostringstream want;
      want << -L.first << (L.second ? " <= " : " < ") << names[k] << (U.second ? " <= " : " < ") << U.first;
      if (!same(strtod(m[1].str().c_str(), nullptr), -L.first) || !same(strtod(m[5].str().c_str(), nullptr), U.first) ||
          (m[2] == "<=") != L.second || (m[4] == "<=") != U.second)
        return "printed \"" + l + "\" for " + want.str();
    }
    if (!std::getline(is, l) || l.size() < 8 || l.find_first_not_of('=') != std::string::npos)
      return "not a separator: " + l;
  }
  if (std::getline(is, l))
    return "printed more than was reported: " + l;
  if (!out.empty() && out.back() != '\n')
    return "the output does not end with a line break";
  return "";
}
bool equal(const Zone &a, const Zone &b) {
  if (a.value.rows() != b.value.rows() || a.value.cols() != b.value.cols())
    return false;
  for (int i = 0; i < a.value.rows(); i++)
    for (int j = 0; j < a.value.cols(); j++)
      if (a.value(i, j) != b.value(i, j))
        return false;
  return true;
}
Bounds anyBound(pbt::Src &s) {
  double v;
  switch (s.pick({5, 3, 2, 2, 1})) {
  case 0: v = s.range(-8, 8); break;
  case 1: v = s.range(-4000, 4000) / 8.0; break;
  case 2: v = s.range(-1000000, 1000000) / 1000.0; break;
  case 3: v = s.range(-1000000, 1000000) * 1000.0 + s.range(0, 999999) / 1e6; break;
  default: return {std::numeric_limits<double>::infinity(), false};
  }
  return {v, s.chance(1, 2)};
}
void histories(pbt::Src &s, pbt::Ctx &ctx) {
  AnsVec<Zone> vec;
  AnsNum<Zone> num;
  AnsPrinter loud{PrintContainer(false)}, quiet{PrintContainer(true)};
  std::vector<Zone> kept, reported;
  size_t count = 0;
  bool cleared = false;
  std::string err;
  Capture cap;
  Zone z = Zone::universal(2);
  int ops = s.range(1, 20);
  size_t more = 0; // reported to the counter and the quiet printer only
  bool bulk = s.chance(1, 40);
  std::ostringstream what;
  auto note = [&](bool ok, const char *m) {
    if (!ok && err.empty())
      err = m;
  };
  for (int k = 0; k < ops; k++) {
    switch (s.pick({16, 2, 2, bulk ? 4 : 0})) {
    case 3: { // many reports: those who keep nothing
      size_t n = size_t(s.elem(std::vector<int>{300, 5000, 70000}));
      what << "b" << n << " ";
      for (size_t i = 0; i < n; i++)
        num.push_back(z), quiet.push_back(z);
      more += n;
      break;
    }
    case 0:
      if (!s.chance(1, 5)) // else the same zone again
        for (int i = 0; i < 3; i++)
          for (int j = 0; j < 3; j++)
            if (i != j)
              z.value(i, j) = anyBound(s);
      what << "p";
      kept.push_back(z);
      reported.push_back(z);
      count++;
      vec.push_back(z);
      num.push_back(z);
      loud.push_back(z);
      quiet.push_back(z);
      break;
    case 1:
      what << "c";
      cleared = cleared || count;
      kept.clear();
      count = more = 0;
      vec.clear();
      num.clear();
      loud.clear();
      quiet.clear();
      break;
    default:
      what << "r";
      size_t n = size_t(s.range(0, 100));
      vec.reserve(n);
      num.reserve(n);
      loud.reserve(n);
      quiet.reserve(n);
    }
    note(vec.size() == count, "the list does not know its size");
    note(num.size() == count + more, "the counter counts differently");
    note(loud.size() == count, "the printer counts differently");
    note(quiet.size() == count + more, "the quiet printer counts differently");
    size_t i = 0;
    for (auto &x : vec) {
      note(i < kept.size() && equal(x, kept[i]), "the list holds another zone than was reported");
      i++;
    }
    note(i == kept.size(), "the list does not hold all zones");
  }
  std::string out = cap.end();
  ctx.desc << "calls (p: report, c: clear, r: reserve, b: many reports): " << what.str() << "\n";
  ctx.check(err.empty(), err);
  err = judge(out, reported);
  ctx.check(err.empty(), err);
  ctx.nontrivial = reported.size() >= 3;
  if (cleared) ctx.label("cleared");
  if (more > 1000) ctx.label("> 1000 reports");
}
// one run, reporting to a recorder and to all four containers
struct All {
  std::vector<Zone> reported;
  AnsVec<Zone> vec;
  AnsNum<Zone> num;
  AnsPrinter loud{PrintContainer(false)}, quiet{PrintContainer(true)};
  void count(size_t &a, size_t &b, size_t &c, size_t &d) { a = vec.size(), b = num.size(), c = loud.size(), d = quiet.size(); }
  void clear() { reported.clear(), vec.clear(), num.clear(), loud.clear(), quiet.clear(); }
};
All *g_tee; // lives for one case: its memory comes from the case's arena
struct Tee {
  using value_type = Zone;
  std::size_t size() const { return g_tee->reported.size(); }
  void push_back(const Zone &z) {
    g_tee->reported.push_back(z);
    g_tee->vec.push_back(z);
    g_tee->num.push_back(z);
    g_tee->loud.push_back(z);
    g_tee->quiet.push_back(z);
  }
  void clear() { g_tee->clear(); }
  void reserve(std::size_t n) {
    g_tee->vec.reserve(n);
    g_tee->num.reserve(n);
    g_tee->loud.reserve(n);
    g_tee->quiet.reserve(n);
  }
};
void runs(pbt::Src &s, pbt::Ctx &ctx) {
  int variant = s.range(0, 2);
  gen::TAOpt o;
  o.sigma = gen::alphabet(s);
  o.maxStates = 3;
  o.maxClocks = s.pick({5, 1}) ? 2 : 1;
  o.dollar = variant == 0;
  o.freeAccept = variant != 0;
  ora::TA a = gen::automaton(s, o);
  auto perm = sut::permutation(s, a.n);
  ora::Word w = gen::logFor(s, a, o.sigma, 14);
  gen::limitRuns(a, w);
  gen::scale(s, a, w);
  ctx.desc << ora::show(a) << "log: " << ora::show(w) << "[matcher " << variant << "]";
  All all;
  g_tee = &all;
  AnsContainer<Tee> tee;
  std::string out;
  size_t fromVec = 0, fromNum = 0, fromLoud = 0, fromQuiet = 0;
  {
    Capture cap;
    pbt::callCatchingExit([&] {
      TimedAutomaton A;
      sut::build(a, A, perm);
      pbt::withBudget(sut::kBig, sut::kAll, [&] {
        if (variant == 0)
          monaaDollar(sut::MemContainer(w), A, tee);
        else if (variant == 1)
          monaaNotNecessaryDollar(sut::MemContainer(w), A, tee);
        else
          monaa(sut::MemContainer(w), A, tee);
      });
    });
    out = cap.end();
  }
  g_tee->count(fromVec, fromNum, fromLoud, fromQuiet);
  auto &zs = g_tee->reported;
  ctx.check(fromVec == zs.size() && fromNum == zs.size() && fromLoud == zs.size() && fromQuiet == zs.size() && tee.size() == zs.size(),
            "the containers count differently: " + std::to_string(fromVec) + ", " + std::to_string(fromNum) + ", " +
                std::to_string(fromLoud) + ", " + std::to_string(fromQuiet) + " of " + std::to_string(zs.size()));
  size_t i = 0;
  for (auto &x : g_tee->vec)
    ctx.check(i < zs.size() && equal(x, zs[i++]), "the list holds another zone than was reported");
  std::string err = judge(out, zs);
  ctx.check(err.empty(), err);
  ctx.nontrivial = zs.size() >= 2;
  ctx.label("through a matcher");
}
} // namespace
static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  if (s.pick({2, 1}))
    runs(s, ctx);
  else
    histories(s, ctx);
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
