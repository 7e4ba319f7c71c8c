// C11: the algebra of duration intervals: intersection, sum, repetition, sets.
#include "pbt.hh"
#include "constraint.hh"
#include "interval.hh"

struct I {
  int lo = 0, hi = 0; // hi < 0: unbounded
  bool lc = true, hc = true;
};
static std::string show(const I &i) {
  return std::string(i.lc ? "[" : "(") + std::to_string(i.lo) + "," + (i.hi < 0 ? "inf" : std::to_string(i.hi)) +
         (i.hc ? "]" : ")");
}
static std::string show(const std::vector<I> &v) {
  std::string r;
  for (auto &i : v)
    r += show(i) + " ";
  return r;
}
// x in quarters
static bool has(const I &i, int x) {
  return (i.lc ? x >= 4 * i.lo : x > 4 * i.lo) && (i.hi < 0 || (i.hc ? x <= 4 * i.hi : x < 4 * i.hi));
}
static bool has(const std::vector<I> &v, int x) {
  for (auto &i : v)
    if (has(i, x))
      return true;
  return false;
}
static I sum(const I &a, const I &b) {
  return {a.lo + b.lo, a.hi < 0 || b.hi < 0 ? -1 : a.hi + b.hi, a.lc && b.lc,
          a.hi < 0 || b.hi < 0 ? false : a.hc && b.hc};
}
static bool empty(const I &a) { return a.hi >= 0 && (a.lo > a.hi || (a.lo == a.hi && !(a.lc && a.hc))); }
static Interval lib(const I &i) {
  return Interval(Bounds{double(i.lo), i.lc},
                  i.hi < 0 ? Bounds{std::numeric_limits<double>::infinity(), false} : Bounds{double(i.hi), i.hc});
}
using LV = std::vector<std::shared_ptr<Interval>>;
static LV lib(const std::vector<I> &v) {
  LV r;
  for (auto &i : v)
    r.push_back(std::make_shared<Interval>(lib(i)));
  return r;
}
static bool has(const LV &v, int x) {
  for (auto &i : v)
    if (i->contain(x / 4.0))
      return true;
  return false;
}
static I gen(pbt::Src &s, bool wide) {
  I i;
  i.lo = s.pick({6, 1}) ? s.range(4, 9) : s.range(0, 5);
  switch (s.pick({6, 2, wide ? 0 : 1})) {
  case 0: i.hi = i.lo + s.range(1, 4); break;
  case 1: i.hi = -1; break;
  default: i.hi = i.lo;
  }
  i.lc = !s.chance(1, 2);
  i.hc = !s.chance(1, 2);
  if (i.hi == i.lo)
    i.lc = i.hc = true;
  if (i.hi < 0)
    i.hc = false;
  return i;
}
static std::vector<I> genSet(pbt::Src &s, bool wide, int most = 3) {
  std::vector<I> v;
  int n = s.range(1, most);
  for (int k = 0; k < n; k++)
    v.push_back(gen(s, wide));
  return v;
}
static int kMax = 4 * 44; // what is looked at, in quarters
// now and then many, spread out
static std::vector<I> someSet(pbt::Src &s) {
  if (!s.chance(1, 5))
    return genSet(s, false);
  kMax = 4 * 90;
  auto v = genSet(s, false, 9);
  for (auto &i : v) {
    int d = 3 * s.range(0, 10);
    i.lo += d;
    if (i.hi >= 0)
      i.hi += d;
    else if (!s.chance(1, 6))
      i.hi = i.lo + 1;
  }
  return v;
}

// All sums of n_1 I_1 + ... with at least one summand; `fill` adds the single
// points where two adjacent open multiples of one interval touch.
static std::vector<I> repetitions(const std::vector<I> &v, bool fill) {
  // repetitions of each interval
  std::vector<I> total;
  auto less = [](const std::pair<I, bool> &p, const std::pair<I, bool> &q) {
    return std::tie(p.first.lo, p.first.hi, p.first.lc, p.first.hc, p.second) <
           std::tie(q.first.lo, q.first.hi, q.first.lc, q.first.hc, q.second);
  };
  std::vector<std::pair<I, bool>> partial{{{0, 0, true, true}, false}};
  for (auto &i : v) {
    std::vector<std::pair<I, bool>> next;
    std::vector<I> reps;
    I cur = i;
    for (int k = 1; 4 * cur.lo <= kMax && k <= kMax / 4 + 2; k++) {
      reps.push_back(cur);
      I n = sum(cur, i);
      if (fill && cur.hi >= 0 && cur.hi == n.lo && !cur.hc && !n.lc)
        reps.push_back({n.lo, n.lo, true, true});
      if (cur.hi < 0)
        break;
      cur = n;
    }
    for (auto &p : partial) {
      next.push_back(p);
      for (auto &r : reps) {
        I n = sum(p.first, r);
        if (4 * n.lo <= kMax)
          next.push_back({n, true});
      }
    }
    // the same interval once
    std::sort(next.begin(), next.end(), less);
    next.erase(std::unique(next.begin(), next.end(), [&](auto &p, auto &q) { return !less(p, q) && !less(q, p); }), next.end());
    partial = next;
  }
  for (auto &p : partial)
    if (p.second)
      total.push_back(p.first);
  return total;
}

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  int what = s.pick({2, 2, 3, 2, 2, 3, 4, 3});
  kMax = 4 * 44;
  auto same = [&](const LV &got, const std::vector<I> &want, const char *n) {
    for (int x = 0; x <= kMax; x++)
      if (has(got, x) != has(want, x)) {
        std::string g;
        for (auto &i : got) {
          char b[80];
          snprintf(b, sizeof b, "%s%g,%g%s ", i->lowerBound.second ? "[" : "(", i->lowerBound.first,
                   i->upperBound.first, i->upperBound.second ? "]" : ")");
          g += b;
        }
        ctx.fail(std::string(n) + ": " + std::to_string(x / 4.0) + (has(want, x) ? " is missing from " : " is wrongly in ") + g);
      }
  };
  switch (what) {
  case 0: {
    I a = gen(s, false);
    ctx.desc << "contain " << show(a);
    for (int x = 0; x <= kMax; x++)
      ctx.check(lib(a).contain(x / 4.0) == has(a, x), "contain " + std::to_string(x / 4.0));
    ctx.nontrivial = true;
    break;
  }
  case 1: {
    I a = gen(s, false), b = gen(s, false);
    ctx.desc << show(a) << " && " << show(b);
    Interval c = lib(a) && lib(b);
    bool any = false;
    for (int x = 0; x <= kMax; x++) {
      ctx.check(c.contain(x / 4.0) == (has(a, x) && has(b, x)), "at " + std::to_string(x / 4.0));
      any = any || (has(a, x) && has(b, x));
    }
    ctx.nontrivial = any;
    break;
  }
  case 2: {
    auto a = someSet(s);
    I b = gen(s, false);
    ctx.desc << "land " << show(a) << " with " << show(b);
    auto l = lib(a);
    land(l, lib(b));
    std::vector<I> want;
    for (int x = 0; x <= kMax; x++)
      ctx.check(has(l, x) == (has(a, x) && has(b, x)), "at " + std::to_string(x / 4.0));
    // what is left can be summed: it has no empty member
    for (auto &i : l)
      ctx.check(i->lowerBound.first < i->upperBound.first ||
                    (i->lowerBound.first == i->upperBound.first && i->lowerBound.second && i->upperBound.second),
                "an empty interval is kept");
    ctx.nontrivial = !l.empty();
    break;
  }
  case 3: {
    auto a = someSet(s), b = someSet(s);
    ctx.desc << "land " << show(a) << " with " << show(b);
    auto l = lib(a), r = lib(b);
    land(l, r);
    for (int x = 0; x <= kMax; x++) {
      ctx.check(has(l, x) == (has(a, x) && has(b, x)), "at " + std::to_string(x / 4.0));
      ctx.check(has(r, x) == has(b, x), "the right operand is changed");
    }
    ctx.nontrivial = !l.empty();
    break;
  }
  case 4: {
    I a = gen(s, false), b = gen(s, false);
    ctx.desc << show(a) << " + " << show(b);
    LV l{std::make_shared<Interval>(lib(a) + lib(b))};
    same(l, {sum(a, b)}, "sum");
    ctx.nontrivial = true;
    break;
  }
  case 5: {
    auto a = someSet(s), b = someSet(s);
    bool cut = s.chance(1, 2);
    I c = gen(s, false);
    ctx.desc << "(" << show(a) << (cut ? "&& " + show(c) : std::string()) << ") + " << show(b);
    auto l = lib(a), r = lib(b);
    std::vector<I> a2;
    if (cut) {
      land(l, lib(c));
      for (auto &x : a) {
        I y = x;
        if (c.lo > y.lo || (c.lo == y.lo && !c.lc))
          y.lo = c.lo, y.lc = c.lc;
        if (c.hi >= 0 && (y.hi < 0 || c.hi < y.hi || (c.hi == y.hi && !c.hc)))
          y.hi = c.hi, y.hc = c.hc;
        if (!empty(y))
          a2.push_back(y);
      }
    } else
      a2 = a;
    l += r;
    std::vector<I> want;
    for (auto &x : a2)
      for (auto &y : b)
        want.push_back(sum(x, y));
    same(l, want, "sum of sets");
    ctx.nontrivial = !want.empty();
    break;
  }
  case 6: {
    I a = gen(s, true);
    bool set = s.chance(1, 2);
    kMax = 4 * 130;
    ctx.desc << show(a) << " repeated" << (set ? " (set)" : "");
    Interval i = lib(a);
    LV l{std::make_shared<Interval>(i)};
    if (set)
      plus(l);
    else
      i.plus(l);
    auto exact = repetitions({a}, false), filled = repetitions({a}, true);
    for (int x = 0; x <= kMax; x++) {
      if (has(exact, x))
        ctx.check(has(l, x), "a sum is missing: " + std::to_string(x / 4.0));
      if (!has(filled, x))
        ctx.check(!has(l, x), "not a sum: " + std::to_string(x / 4.0));
    }
    ctx.nontrivial = exact.size() > 1;
    break;
  }
  default: {
    bool four = s.chance(1, 5);
    auto a = genSet(s, true, four ? 4 : 3);
    if (four) // narrow ones, which do not contain each other
      for (auto &i : a) {
        if (i.lo < 2)
          i.lo += 2, i.hi += i.hi < 0 ? 0 : 2;
        if (i.hi > i.lo)
          i.hi = i.lo + 1;
      }
    ctx.desc << show(a) << "repeated";
    auto l = lib(a);
    plus(l);
    auto exact = repetitions(a, false), filled = repetitions(a, true);
    for (int x = 0; x <= kMax; x++) {
      if (has(exact, x))
        ctx.check(has(l, x), "a sum is missing: " + std::to_string(x / 4.0));
      if (!has(filled, x))
        ctx.check(!has(l, x), "not a sum: " + std::to_string(x / 4.0));
    }
    ctx.nontrivial = a.size() > 1;
    if (a.size() > 3) ctx.label("> 3 intervals");
  }
  }
  const char *names[] = {"contain", "&&", "land", "land of sets", "+", "+ of sets", "repetition", "repetition of a set"};
  ctx.label(names[what]);
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop, 500); }
