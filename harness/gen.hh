// Generators of patterns and logs.
#pragma once
#include "oracle.hh"

namespace gen {
using namespace ora;
using pbt::Src;

// `wide`: letters that only automata can have
inline std::string alphabet(Src &s, bool wide = false) {
  switch (s.pick({12, 10, 4, 4, wide ? 2 : 0})) {
  case 0: return "ab";
  case 1: return "a";
  case 2: return "abc";
  case 3: return s.elem(std::vector<std::string>{"zAbZ", "z", "az", "Az", "xyz"});
  default: return s.elem(std::vector<std::string>{"~", "a~", "!a~", "}z"});
  }
}

// a letter that is in no pattern; any byte is allowed in a log
inline char foreign(Src &s) {
  switch (s.pick({8, 1, 1, 1})) {
  case 0: return 'q';
  case 1: return '\x7f';
  case 2: return char(s.range(128, 255));
  default: return s.elem(std::string("?0%(\x01\x1b"));
  }
}

inline int constant(Src &s) {
  switch (s.pick({12, 4, 1})) {
  case 0: return s.range(0, 3);
  case 1: return s.range(1, 8);
  default: return s.range(5, 40);
  }
}
inline Op op(Src &s) { return Op(s.below(4)); }

// strictly positive gap in ticks, biased to integer boundaries
inline int64_t gap(Src &s) {
  switch (s.pick({8, 6, 4, 1})) {
  case 0: return TICKS * s.range(1, 3);
  case 1: return TICKS / 2 * s.range(1, 6);
  case 2: return s.range(1, 24);
  default: return TICKS * s.range(3, 45);
  }
}

inline Word retime(Src &s, const std::string &letters) {
  Word w;
  int64_t t = 0;
  for (char c : letters) {
    t += gap(s);
    w.push_back({c, t});
  }
  return w;
}

struct TAOpt {
  bool dollar = true;      // accepting states are entered by `$`
  bool freeAccept = false; // other edges may enter accepting states, too
  int maxStates = 5, maxClocks = 2, maxExtra = 5;
  bool eps = false;
  std::string sigma = "ab";
};

inline std::vector<Guard> guards(Src &s, int clocks) {
  std::vector<Guard> g;
  if (clocks == 0)
    return g;
  int k = s.pick({5, 6, 2, 1});
  for (int i = 0; i < k; i++)
    g.push_back({s.range(0, clocks - 1), op(s), constant(s)});
  return g;
}
inline std::vector<int> resets(Src &s, int clocks) {
  std::vector<int> r;
  for (int x = 0; x < clocks; x++)
    if (s.chance(1, 3))
      r.push_back(x);
  return r;
}

// A chain from an initial to an accepting state plus random extra edges.
inline TA automaton(Src &s, const TAOpt &o) {
  TA a;
  int inner = 1 + s.range(0, o.maxStates - 1); // non-accepting states
  a.clocks = s.pick({2, 5, 4}) == 0 ? 0 : s.range(1, o.maxClocks);
  int accs = s.chance(1, 8) ? 2 : 1;
  a.n = inner + accs;
  a.init.assign(size_t(a.n), 0);
  a.acc.assign(size_t(a.n), 0);
  for (int i = inner; i < a.n; i++)
    a.acc[size_t(i)] = 1;
  a.init[0] = 1;
  for (int i = 1; i < inner; i++)
    if (s.chance(1, 8))
      a.init[size_t(i)] = 1;
  auto edge = [&](int src, int dst, char c) {
    a.edges.push_back({src, dst, c, guards(s, a.clocks), resets(s, a.clocks)});
  };
  auto letter = [&]() { return s.elem(o.sigma); };
  for (int i = 0; i + 1 < inner; i++)
    edge(i, i + 1, letter());
  if (o.dollar && inner == 1)
    edge(0, 0, letter());
  edge(inner - 1, inner, o.dollar ? '$' : letter());
  int extra = s.range(0, o.maxExtra);
  for (int k = 0; k < extra; k++) {
    int src = s.range(0, inner - 1);
    if (s.chance(1, 5))
      edge(src, s.range(inner, a.n - 1), o.dollar ? '$' : letter());
    else if (o.freeAccept && s.chance(1, 3)) {
      src = s.range(0, a.n - 1);
      edge(src, s.range(0, a.n - 1), letter());
    } else if (o.eps && s.chance(1, 3))
      edge(src, s.range(0, inner - 1), 0);
    else
      edge(src, s.range(0, inner - 1), letter());
  }
  return a;
}

// letters of a random walk through the automaton
inline std::string walk(Src &s, const TA &a, int maxLen) {
  std::string r;
  std::vector<int> inits;
  for (int i = 0; i < a.n; i++)
    if (a.init[size_t(i)])
      inits.push_back(i);
  int cur = s.elem(inits);
  for (int k = 0; k < maxLen; k++) {
    std::vector<const Edge *> es;
    for (auto &e : a.edges)
      if (e.src == cur && e.c != '$')
        es.push_back(&e);
    if (es.empty())
      break;
    const Edge *e = es[s.below(uint32_t(es.size()))];
    if (e->c)
      r += e->c;
    cur = e->dst;
  }
  return r;
}

// A second, longer way to an accepting state, whose letters contain those of a walk:
// matches lie within longer attempts, which end after them.
inline void embed(Src &s, TA &a, const TAOpt &o) {
  std::string l;
  for (int k = s.range(1, 2); k > 0; k--)
    l += s.elem(o.sigma);
  l += walk(s, a, 4);
  for (int k = s.range(0, 2); k > 0; k--)
    l += s.elem(o.sigma);
  if (o.dollar)
    l += '$';
  int acc = 0;
  while (!a.acc[size_t(acc)])
    acc++;
  int src = 0;
  for (size_t i = 0; i < l.size(); i++) {
    int dst = acc;
    if (i + 1 < l.size()) {
      dst = a.n++;
      a.init.push_back(0);
      a.acc.push_back(0);
    }
    a.edges.push_back({src, dst, l[i], s.chance(1, 3) ? guards(s, a.clocks) : std::vector<Guard>(), resets(s, a.clocks)});
    src = dst;
  }
}

// a chain of letters that repeats a short unit, with hardly any guards: long jumps
inline std::string periodic(Src &s, const std::string &sigma, int len) {
  std::string unit, l;
  for (int k = s.range(1, 5); k > 0; k--)
    unit += s.elem(sigma);
  while (int(l.size()) < len)
    l += unit;
  l.resize(size_t(len));
  if (s.chance(1, 3))
    l[s.below(uint32_t(len))] = s.elem(sigma);
  return l;
}
inline TA chain(Src &s, const std::string &letters) {
  TA a;
  a.n = int(letters.size()) + 1;
  a.init.assign(size_t(a.n), 0);
  a.acc.assign(size_t(a.n), 0);
  a.init[0] = 1;
  a.acc[letters.size()] = 1;
  a.clocks = s.chance(1, 2) ? 1 : 0;
  for (int i = 0; i + 1 < a.n; i++) {
    std::vector<Guard> g;
    if (a.clocks && s.chance(1, 4))
      g.push_back({0, s.chance(1, 2) ? LE : s.chance(1, 2) ? LT : GT, s.range(1, 6)});
    a.edges.push_back({i, i + 1, letters[size_t(i)], g, a.clocks && s.chance(1, 3) ? std::vector<int>{0} : std::vector<int>()});
  }
  return a;
}
// pieces of the chain after one another
inline Word chainLog(Src &s, const std::string &letters, const std::string &sigma, int maxEvents) {
  std::string l;
  while (int(l.size()) < maxEvents && (l.empty() || !s.chance(1, 6))) {
    std::string piece = letters.substr(0, size_t(s.range(int(letters.size()) / 2, int(letters.size()))));
    if (s.chance(1, 3)) // the pieces overlap
      for (size_t k = std::min(l.size(), piece.size()); k > 0; k--)
        if (l.substr(l.size() - k) == piece.substr(0, k)) {
          piece = piece.substr(k);
          break;
        }
    if (piece.empty())
      piece = letters.substr(0, 1);
    l += piece;
    if (s.chance(1, 6))
      l[s.below(uint32_t(l.size()))] = s.elem(sigma);
  }
  if (int(l.size()) > maxEvents)
    l.resize(size_t(maxEvents));
  return retime(s, l);
}

// delays for a walk that satisfy its guards when this is easily done
inline Word timedWalk(Src &s, const TA &a, int maxLen) {
  Word w;
  std::vector<int> inits;
  for (int i = 0; i < a.n; i++)
    if (a.init[size_t(i)])
      inits.push_back(i);
  int cur = s.elem(inits);
  std::vector<int64_t> r(size_t(a.clocks), 0);
  int64_t now = 0;
  for (int k = 0; k < maxLen; k++) {
    std::vector<const Edge *> es;
    for (auto &e : a.edges)
      if (e.src == cur && e.c != '$' && e.c)
        es.push_back(&e);
    if (es.empty())
      break;
    const Edge *e = es[s.below(uint32_t(es.size()))];
    int64_t lo = now + 1, hi = now + 4 * TICKS;
    for (auto &g : e->guard) {
      int64_t b = r[size_t(g.x)] + g.c * TICKS;
      if (g.op == GE) lo = std::max(lo, b);
      if (g.op == GT) lo = std::max(lo, b + 1);
      if (g.op == LE) hi = std::min(hi, b);
      if (g.op == LT) hi = std::min(hi, b - 1);
    }
    int64_t t;
    if (lo > hi)
      t = s.chance(1, 2) ? std::max(lo, now + 1) : std::max(hi, now + 1);
    else
      switch (s.pick({2, 2, 3})) {
      case 0: t = lo; break;
      case 1: t = hi; break;
      default: t = lo + int64_t(s.below(uint32_t(hi - lo + 1)));
      }
    now = t;
    w.push_back({e->c, now});
    for (int x : e->reset)
      r[size_t(x)] = now;
    cur = e->dst;
  }
  return w;
}

inline void appendWord(Word &w, const Word &v, int64_t g) {
  int64_t base = w.empty() ? 0 : w.back().t;
  if (!w.empty())
    base += g;
  for (auto &e : v)
    w.push_back({e.c, e.t + base});
}

// a log for an automaton: random events mixed with (timed) walks
inline Word logFor(Src &s, const TA &a, const std::string &sigma, int maxEvents) {
  Word w;
  int parts = s.range(1, 3);
  for (int k = 0; k < parts && int(w.size()) < maxEvents; k++) {
    int room = maxEvents - int(w.size());
    Word v;
    switch (s.pick({4, 2, 3})) {
    case 0: v = timedWalk(s, a, std::min(room, 7)); break;
    case 1: v = retime(s, walk(s, a, std::min(room, 7))); break;
    default: {
      std::string l;
      int len = s.range(0, std::min(room, 6));
      for (int i = 0; i < len; i++)
        l += s.chance(1, 12) ? foreign(s) : s.elem(sigma);
      v = retime(s, l);
    }
    }
    appendWord(w, v, s.chance(1, 2) ? 0 : gap(s));
    // keep strictly increasing
    for (size_t i = 1; i < w.size(); i++)
      if (w[i].t <= w[i - 1].t)
        w[i].t = w[i - 1].t + 1;
  }
  if (!w.empty() && w[0].t <= 0)
    w[0].t = 1;
  for (size_t i = 1; i < w.size(); i++)
    if (w[i].t <= w[i - 1].t)
      w[i].t = w[i - 1].t + 1;
  return w;
}

// The matcher enumerates runs one by one, so the number of (untimed) runs over a
// log has to stay moderate: cut the log where it would exceed the cap.
inline void limitRuns(const TA &a, Word &w, double cap = 3000, bool dollar = true) {
  std::vector<std::vector<std::vector<std::pair<int, double>>>> byLetter(
      256, std::vector<std::vector<std::pair<int, double>>>(size_t(a.n)));
  for (auto &e : a.edges)
    byLetter[size_t(uint8_t(e.c))][size_t(e.src)].push_back({e.dst, 1.0});
  double total = 0;
  for (size_t i = 0; i < w.size(); i++) {
    std::vector<double> cur(size_t(a.n), 0), next;
    for (int s = 0; s < a.n; s++)
      cur[size_t(s)] = a.init[size_t(s)];
    for (size_t j = i; j < w.size(); j++) {
      next.assign(size_t(a.n), 0);
      double sum = 0;
      for (int s = 0; s < a.n; s++)
        if (cur[size_t(s)] > 0)
          for (auto &d : byLetter[size_t(uint8_t(w[j].c))][size_t(s)]) {
            next[size_t(d.first)] += cur[size_t(s)];
            sum += cur[size_t(s)];
          }
      cur.swap(next);
      total += sum;
      if (sum > cap || total > 8 * cap) {
        w.resize(j);
        total -= sum;
        break;
      }
      if (sum == 0)
        break;
    }
  }
  (void)dollar;
}

inline Ival interval(Src &s, bool allowInf = true) {
  Ival v;
  switch (s.pick({6, allowInf ? 2 : 0, 1, 2})) {
  case 0:
    v.lo = constant(s);
    v.hi = v.lo + s.range(1, 3);
    v.loC = s.chance(1, 2);
    v.hiC = s.chance(1, 2);
    break;
  case 1:
    v.lo = constant(s);
    v.hi = -1;
    v.loC = s.chance(1, 2);
    v.hiC = false;
    break;
  case 2:
    v.lo = v.hi = s.range(1, 4);
    v.loC = v.hiC = true;
    break;
  default:
    v.lo = 0;
    v.loC = true;
    v.hi = s.range(1, 6);
    v.hiC = s.chance(1, 2);
  }
  return v;
}

struct TreOpt {
  std::string sigma = "ab";
  bool conj = true, star = true, within = true, dollarInside = false;
};

inline T tre(Src &s, const TreOpt &o, int budget) {
  if (budget <= 1)
    return atom(s.elem(o.sigma));
  switch (s.pick({3, 8, 4, o.conj ? 2 : 0, 4, o.star ? 2 : 0, o.within ? 7 : 0})) {
  case 0: return atom(s.elem(o.sigma));
  case 1: {
    int l = s.range(1, budget - 1);
    return mkT(Tre::Cat, tre(s, o, l), tre(s, o, budget - l));
  }
  case 2: {
    int l = s.range(1, budget - 1);
    return mkT(Tre::Or, tre(s, o, l), tre(s, o, budget - l));
  }
  case 3: {
    int l = s.range(1, budget - 1);
    return mkT(Tre::And, tre(s, o, l), tre(s, o, budget - l));
  }
  case 4: return mkT(Tre::Plus, tre(s, o, budget - 1));
  case 5: return mkT(Tre::Star, tre(s, o, budget - 1));
  default: {
    auto p = mkT(Tre::Within, tre(s, o, budget - 1));
    p->iv = interval(s);
    p->form = int(s.below(4));
    return p;
  }
  }
}

// durations within durations, repeated: several clocks that run from the same beginning
inline T nestedTre(Src &s, const TreOpt &o) {
  auto within = [&](T x) {
    auto p = mkT(Tre::Within, x);
    p->iv = interval(s);
    p->form = int(s.below(4));
    return p;
  };
  T e = within(tre(s, o, s.range(1, 4)));
  if (o.conj && s.chance(1, 4))
    e = mkT(Tre::And, e, within(tre(s, o, s.range(1, 3))));
  else
    e = within(s.chance(3, 4) ? mkT(Tre::Cat, e, tre(s, o, s.range(1, 2))) : mkT(Tre::Cat, tre(s, o, 1), e));
  if (s.chance(2, 3))
    e = mkT(s.chance(3, 4) ? Tre::Plus : Tre::Star, e);
  return e;
}

// a word sampled from the expression (durations only roughly respected)
inline std::string sampleLetters(Src &s, const T &e, int fuel) {
  switch (e->k) {
  case Tre::Atom: return e->c == '$' ? "" : std::string(1, e->c);
  case Tre::Eps: return "";
  case Tre::Cat: return sampleLetters(s, e->l, fuel) + sampleLetters(s, e->r, fuel);
  case Tre::Or: return s.chance(1, 2) ? sampleLetters(s, e->r, fuel) : sampleLetters(s, e->l, fuel);
  case Tre::And: return sampleLetters(s, s.chance(1, 2) ? e->r : e->l, fuel);
  case Tre::Plus:
  case Tre::Star: {
    int k = e->k == Tre::Plus ? s.range(1, 3) : s.range(0, 3);
    std::string r;
    for (int i = 0; i < k && int(r.size()) < fuel; i++)
      r += sampleLetters(s, e->l, fuel);
    return r;
  }
  case Tre::Within: return sampleLetters(s, e->l, fuel);
  }
  return "";
}
inline Word logFor(Src &s, const T &e, const std::string &sigma, int maxEvents) {
  std::string letters;
  int parts = s.range(1, 3);
  for (int k = 0; k < parts; k++) {
    if (s.chance(2, 3))
      letters += sampleLetters(s, e, 8);
    else {
      int len = s.range(0, 5);
      for (int i = 0; i < len; i++)
        letters += s.chance(1, 12) ? foreign(s) : s.elem(sigma);
    }
  }
  if (int(letters.size()) > maxEvents)
    letters.resize(size_t(maxEvents));
  return retime(s, letters);
}

// Now and then everything is large: constants and times multiplied, or a log that
// begins late.  The guards' boundaries stay where they were.
inline int scaleFactor(Src &s) {
  return s.chance(1, 10) ? s.elem(std::vector<int>{2, 10, 90, 300, 5000, 40000}) : 1;
}
inline void scaleWord(Src &s, Word &w, int k, bool far = true) { // far: in signal mode a long delay is many segments
  for (auto &e : w)
    e.t *= k;
  if (k > 1 && s.chance(1, 2)) // off the boundaries
    for (size_t i = 0; i < w.size(); i++)
      if (s.chance(1, 4)) {
        int64_t t = w[i].t + s.range(-1, 1);
        if (t > (i ? w[i - 1].t : 0) && (i + 1 == w.size() || t < w[i + 1].t))
          w[i].t = t;
      }
  if (s.chance(1, 25)) {
    int64_t d = TICKS * s.elem(far ? std::vector<int>{60, 1000, 1 << 17, 1700000000} : std::vector<int>{60}); // the last as seconds since the epoch
    size_t from = s.chance(2, 3) ? 0 : s.below(uint32_t(w.size() + 1));
    for (size_t i = from; i < w.size(); i++)
      w[i].t += d;
  }
}
inline void scaleTA(TA &a, int k) {
  for (auto &e : a.edges)
    for (auto &g : e.guard)
      g.c *= k;
}
inline T scaleTre(const T &e, int k) {
  if (!e || k == 1)
    return e;
  auto p = std::make_shared<Tre>(*e);
  p->l = scaleTre(e->l, k);
  p->r = scaleTre(e->r, k);
  if (p->k == Tre::Within) {
    p->iv.lo *= k;
    if (p->iv.hi >= 0)
      p->iv.hi *= k;
  }
  return p;
}
inline void scale(Src &s, TA &a, Word &w) {
  int k = scaleFactor(s);
  scaleTA(a, k);
  scaleWord(s, w, k);
}

} // namespace gen
