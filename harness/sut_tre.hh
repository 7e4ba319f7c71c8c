// Timed regular expressions: construction through the library, timed samples.
#pragma once
#include "sut.hh"
#include "tre_driver.hh"

namespace sut {
inline std::shared_ptr<const TRE> parseTre(const std::string &text) {
  TREDriver d;
  std::stringstream ss(text);
  if (!d.parse(ss))
    return nullptr;
  return d.getResult();
}
inline std::shared_ptr<Interval> ival(const Ival &v) {
  return std::make_shared<Interval>(
      Bounds{double(v.lo), v.loC},
      v.hi < 0 ? Bounds{std::numeric_limits<double>::infinity(), false}
               : Bounds{double(v.hi), v.hiC});
}
inline std::shared_ptr<TRE> buildTre(const T &e) {
  using op = TRE::op;
  switch (e->k) {
  case Tre::Atom: return std::make_shared<TRE>(op::atom, e->c);
  case Tre::Eps: return TRE::epsilon;
  case Tre::Cat: return std::make_shared<TRE>(op::concat, buildTre(e->l), buildTre(e->r));
  case Tre::Or: return std::make_shared<TRE>(op::disjunction, buildTre(e->l), buildTre(e->r));
  case Tre::And: return std::make_shared<TRE>(op::conjunction, buildTre(e->l), buildTre(e->r));
  case Tre::Plus: return std::make_shared<TRE>(op::plus, buildTre(e->l));
  case Tre::Star:
    return std::make_shared<TRE>(op::disjunction, TRE::epsilon,
                                 std::make_shared<TRE>(op::plus, buildTre(e->l)));
  default: return std::make_shared<TRE>(op::within, buildTre(e->l), ival(e->iv));
  }
}
} // namespace sut

namespace gen {
// a timed word of the expression, as far as its durations are easily met
inline Word timedSample(Src &s, const T &e, int fuel) {
  Word w;
  switch (e->k) {
  case Tre::Atom: w.push_back({e->c, gap(s)}); break;
  case Tre::Eps: break;
  case Tre::Cat:
    w = timedSample(s, e->l, fuel);
    appendWord(w, timedSample(s, e->r, fuel), 0);
    break;
  case Tre::Or: return timedSample(s, s.chance(1, 2) ? e->r : e->l, fuel);
  case Tre::And: return timedSample(s, s.chance(1, 2) ? e->r : e->l, fuel);
  case Tre::Plus:
  case Tre::Star: {
    int k = e->k == Tre::Plus ? s.range(1, 3) : s.range(0, 3);
    for (int i = 0; i < k && (i == 0 || int(w.size()) < fuel); i++)
      appendWord(w, timedSample(s, e->l, fuel), 0);
    break;
  }
  case Tre::Within: {
    w = timedSample(s, e->l, fuel);
    if (w.empty())
      break;
    if (s.chance(1, 5))
      break; // leave as is
    int64_t lo = e->iv.lo * TICKS + (e->iv.loC ? 0 : 1);
    int64_t hi = e->iv.hi < 0 ? lo + 3 * TICKS : e->iv.hi * TICKS - (e->iv.hiC ? 0 : 1);
    int64_t want;
    switch (s.pick({2, 2, 2, 1, 1})) {
    case 0: want = lo; break;
    case 1: want = hi; break;
    case 2: want = hi > lo ? lo + int64_t(s.below(uint32_t(hi - lo + 1))) : lo; break;
    case 3: want = lo - 1; break;
    default: want = hi + 1;
    }
    // squeeze into increasing ticks ending at `want`
    int64_t d = w.back().t;
    if (want < int64_t(w.size()))
      break;
    if (d != want) {
      int64_t prev = 0;
      size_t n = w.size();
      for (size_t i = 0; i < n; i++) {
        int64_t t = (i + 1 == n) ? want : std::min(w[i].t, want - int64_t(n - 1 - i));
        w[i].t = std::max(t, prev + 1);
        prev = w[i].t;
      }
    }
    break;
  }
  }
  return w;
}
inline void mutate(Src &s, Word &w, const std::string &sigma) {
  if (w.empty())
    return;
  switch (s.pick({3, 1, 1, 2})) {
  case 0: break;
  case 1: w[s.below(uint32_t(w.size()))].c = s.elem(sigma); break;
  case 2: w.pop_back(); break;
  default: {
    size_t i = s.below(uint32_t(w.size()));
    int64_t d = s.range(-4, 8);
    if (w[i].t + d <= (i ? w[i - 1].t : 0))
      d = 1;
    for (; i < w.size(); i++)
      w[i].t += d;
  }
  }
}
} // namespace gen
