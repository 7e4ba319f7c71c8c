// C16: matching is online: it does not read further than some match still needs,
// reports at once, discards what is behind it, and what is reported stays.
#include "regions.hh"

// ---- what the matcher does, seen from its containers ----------------------------
struct Trace {
  std::vector<size_t> limit; // by position: events that may be read while at it
  size_t n = 0;
  bool judged = true;        // the limits are known
  size_t front = 0, top = 0; // discarded before, read up to (exclusive)
  std::string error;
  struct Emit {
    Zone z;
    size_t top;
  };
  std::vector<Emit> emits;
  bool keep = true;
  size_t emitted = 0, maxHeld = 0;
  size_t liveEarly = 0, liveLate = 0;
  static Trace *cur;
  size_t limitAt(size_t i) const { return limit[std::min(i, limit.size() - 1)]; }
  void sample() {
    size_t &l = top < n / 4 ? liveEarly : liveLate;
    if (top * 2 < n || top > n / 4)
      l = std::max(l, pbt::g_arena.live);
  }
};
Trace *Trace::cur = nullptr;

class Probe : public LazyDeque {
public:
  using LazyDeque::LazyDeque;
  bool fetch(std::size_t k) {
    pbt::g_budgetOn = false;
    Trace &t = *Trace::cur;
    if (t.judged && t.error.empty() && k + 1 > t.limitAt(t.front + 1) + 1)
      t.error = "event " + std::to_string(k) + " is asked for while the events before " + std::to_string(t.front) +
                " are discarded, although no match that begins there needs more than " +
                std::to_string(t.limitAt(t.front + 1)) + " events";
    bool r = LazyDeque::fetch(k);
    size_t held = static_cast<std::deque<std::pair<Alphabet, double>> &>(*this).size();
    t.top = std::max(t.top, std::min(k + 1, t.n + 1));
    t.maxHeld = std::max(t.maxHeld, held);
    if (t.judged && t.error.empty() && held > t.limitAt(t.front + 1) + 1 - t.front)
      t.error = "too many events are held: " + std::to_string(held);
    t.sample();
    return r;
  }
  void setFront(std::size_t k) {
    Trace &t = *Trace::cur;
    t.front = std::max(t.front, k);
    LazyDeque::setFront(k);
  }
};
using ProbeWord = WordContainer<Probe>;
class Recorder {
public:
  using value_type = Zone;
  std::size_t size() const { return Trace::cur->emitted; }
  void push_back(const Zone &z) {
    Trace &t = *Trace::cur;
    t.emitted++;
    if (t.keep)
      t.emits.push_back({z, t.top});
  }
  void clear() {}
  void reserve(std::size_t) {}
};

static int run(int matcher, const TimedAutomaton &A, const ora::Word &w, Trace &t) {
  Trace::cur = &t;
  t.n = w.size();
  sut::FileWord fw(w);
  AnsContainer<Recorder> ans;
  return pbt::callCatchingExit([&] {
    pbt::withBudget(sut::kBig, sut::kAll, [&] {
      if (matcher == 0)
        monaaDollar(ProbeWord(fw.f), A, ans);
      else if (matcher == 1)
        monaaNotNecessaryDollar(ProbeWord(fw.f), A, ans);
      else
        monaa(ProbeWord(fw.f), A, ans);
    });
  });
}

// least number of events of a match, 0: none or unknown
static int least(const ora::TA &a, bool dollar) {
  const int min = dollar ? 2 : 1; // one event, and perhaps the end marker
  reg::Graph g(a, 4000);
  if (g.overflow)
    return 0;
  std::deque<int> todo;
  std::vector<int> dist(g.confs.size(), -1);
  for (size_t i = 0; i < g.confs.size(); i++) {
    auto &c = g.confs[i];
    bool zero = std::all_of(c.second.begin(), c.second.end(), [](int v) { return v == 0; });
    if (zero && a.init[size_t(c.first)])
      dist[i] = 0, todo.push_back(int(i));
  }
  int best = 0;
  while (!todo.empty()) {
    int i = todo.front();
    todo.pop_front();
    if (dist[size_t(i)] >= min && a.acc[size_t(g.confs[size_t(i)].first)]) {
      if (!best || dist[size_t(i)] < best)
        best = dist[size_t(i)];
    }
    for (auto &e : g.succ[size_t(i)])
      if (dist[size_t(e.second)] < 0)
        dist[size_t(e.second)] = dist[size_t(i)] + 1, todo.push_back(e.second);
  }
  return best;
}

// by position: how far some run of the automaton that begins there goes
static std::vector<size_t> extents(const ora::TA &a, const ora::Word &w) {
  std::vector<size_t> r;
  auto closure = [&](std::vector<char> &c) {
    for (bool more = true; more;) {
      more = false;
      for (auto &e : a.edges)
        if (e.c == 0 && c[size_t(e.src)] && !c[size_t(e.dst)])
          c[size_t(e.dst)] = 1, more = true;
    }
  };
  for (size_t i = 0; i <= w.size(); i++) {
    std::vector<char> cur(a.init.begin(), a.init.end());
    closure(cur);
    size_t j = i;
    for (; j < w.size(); j++) {
      std::vector<char> next(size_t(a.n), 0);
      bool any = false;
      for (auto &e : a.edges)
        if (e.c == w[j].c && cur[size_t(e.src)])
          next[size_t(e.dst)] = 1, any = true;
      if (!any)
        break;
      closure(next);
      cur = next;
    }
    r.push_back(j);
  }
  return r;
}

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TAOpt o;
  o.sigma = gen::alphabet(s);
  int matcher = s.pick({3, 2, 2});
  bool longLog = s.chance(1, 10);
  o.maxStates = 4;
  o.maxClocks = 2;
  o.dollar = matcher == 0 || (matcher == 1 && s.chance(1, 2));
  o.freeAccept = !o.dollar && s.chance(1, 2);
  ora::TA a = gen::automaton(s, o);
  if (longLog || s.chance(1, 3)) { // patterns of bounded length
    std::vector<ora::Edge> es;
    for (auto &e : a.edges)
      if (e.src < e.dst)
        es.push_back(e);
    a.edges = es;
  }
  ora::Word w;
  if (longLog) {
    size_t want = size_t(s.range(200, 4000));
    std::vector<ora::Word> units;
    for (int k = 0; k < 3; k++)
      units.push_back(k < 2 ? gen::timedWalk(s, a, 6) : gen::retime(s, gen::walk(s, a, 6) + s.elem(o.sigma)));
    uint32_t rng = s.below(1u << 30);
    while (w.size() < want) {
      rng = rng * 1664525u + 1013904223u;
      size_t before = w.size();
      gen::appendWord(w, units[(rng >> 20) % 3], 1 + (rng >> 8) % 17);
      if (w.size() == before)
        w.push_back({'q', before ? w.back().t + 3 : 3});
    }
    for (size_t i = 0; i < w.size(); i++)
      w[i].t = std::max<int64_t>(w[i].t, i ? w[i - 1].t + 1 : 1);
  } else {
    w = gen::logFor(s, a, o.sigma, s.chance(1, 6) ? 40 : 16);
    gen::limitRuns(a, w);
  }
  int m = least(a, o.dollar);
  gen::scale(s, a, w);
  size_t cut = w.empty() ? 0 : s.below(uint32_t(w.size() + 1));
  static const char *const names[] = {"with $", "with optional $", "to the next change"};
  ctx.desc << ora::show(a) << "matching " << names[matcher] << ", prefix " << int(cut) << "\nlog: "
           << (w.size() > 100 ? std::to_string(w.size()) + " events" : ora::show(w)) << "\n";
  TimedAutomaton A;
  sut::build(a, A, sut::permutation(s, a.n));
  auto ext = extents(a, w);
  Trace t;
  t.keep = !longLog;
  t.judged = m > 0;
  size_t far = 0;
  for (size_t i = 0; i <= w.size(); i++) {
    far = std::max({far, ext[i], i + size_t(m)}) ;
    t.limit.push_back(far + 1);
  }
  int status = run(matcher, A, w, t);
  ctx.check(status == -1 || status == 10, "unexpected exit " + std::to_string(status));
  ctx.check(t.error.empty(), t.error);
  if (status == 10) {
    ctx.label("reported as empty pattern");
    return;
  }
  if (!t.judged)
    ctx.label("no match possible or not judged");
  std::string err;
  std::vector<ora::Z> zs;
  for (auto &e : t.emits) {
    ora::Z z = sut::zone(e.z, err);
    ctx.check(err.empty(), err);
    zs.push_back(z);
    if (!t.judged)
      continue;
    size_t i = 0;
    while (i < w.size() && (z.m[1][0] >= ora::BINF || (z.m[1][0] >> 1) > w[i].t ||
                              (z.m[1][0] == ora::mk(w[i].t, true))))
      i++;
    ctx.check(e.top <= t.limitAt(i) + 1, "the zone " + ora::show(z) + " is reported after " + std::to_string(e.top) +
                                            " events have been read; " + std::to_string(t.limitAt(i)) + " suffice");
  }
  if (longLog && w.size() >= 400) {
    size_t L = 0;
    for (size_t i = 0; i <= w.size(); i++)
      L = std::max(L, ext[i] - i);
    ctx.label("log > 400 events");
    if (t.judged)
      ctx.check(t.maxHeld <= std::max(L, size_t(m)) + 4, "up to " + std::to_string(t.maxHeld) + " events of " + std::to_string(w.size()) +
                                             " are held, matches have at most " + std::to_string(L));
#ifndef PBT_SANITIZED
    ctx.check(t.liveLate <= 2 * t.liveEarly + 16384, "memory grows from " + std::to_string(t.liveEarly) + " to " +
                                                         std::to_string(t.liveLate) + " bytes while the log is read");
#endif
  }
  // what is reported for the beginning of the log stays and is complete
  if (!longLog && cut > 0) {
    ora::Word v(w.begin(), w.begin() + long(cut));
    Trace u;
    u.judged = false;
    u.limit.push_back(0);
    int st = run(matcher, A, v, u);
    ctx.check(st == status, "the exit status depends on the log: " + std::to_string(st));
    ora::Fed both[2];
    for (int k = 0; k < 2; k++) {
      std::vector<ora::Z> src = zs;
      if (k) {
        src.clear();
        for (auto &e : u.emits)
          src.push_back(sut::zone(e.z, err));
        ctx.check(err.empty(), err);
      }
      for (auto z : src)
        for (size_t i = 0; i < cut; i++) { // events i.. are in, at least one
          ora::Z x = z;
          x.with(0, 1, ora::mk(-ora::tau(w, int(i) - 1), true));
          x.with(1, 0, ora::mk(ora::tau(w, int(i)), false));
          x.with(0, 2, ora::mk(-ora::tau(w, int(i)), false));
          x.with(2, 0, ora::mk(ora::tau(w, int(cut) - 1), true));
          x.close();
          if (!x.empty())
            ora::addZone(both[k], x);
        }
    }
    ora::Fed lost = ora::minus(both[1], both[0]), late = ora::minus(both[0], both[1]);
    ctx.check(lost.empty(), "reported for a prefix but not for the log: " + (lost.empty() ? "" : ora::show(lost[0])));
    ctx.check(late.empty(), "reported for the log but not for the prefix that contains it: " +
                                (late.empty() ? "" : ora::show(late[0])));
    if (!both[0].empty() && cut < w.size()) ctx.label("a prefix with matches");
  }
  ctx.nontrivial = t.emitted > 0 && w.size() >= 5 && t.judged;
  if (t.emitted) ctx.label("has matches");
  if (matcher == 1) ctx.label("optional $");
  if (matcher == 2) ctx.label("to the next change");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
