// C14: signal-mode matching of timed regular expressions.
// Reference: the relation between begin and end of matches, computed by the
// operators' definitions on zones, without automata.
#include "sut_tre.hh"
using ora::B;
using ora::Fed;
using ora::T;
using ora::Tre;
using ora::Z;

// {(t, t') : (t, m) in a and (m, t') in b for some m}
static Z compose(const Z &a, const Z &b) {
  B m[4][4]; // 0, t, m, t'
  for (auto &r : m)
    for (auto &c : r)
      c = ora::BINF;
  for (int i = 0; i < 4; i++)
    m[i][i] = ora::BZERO;
  static const int pa[3] = {0, 1, 2}, pb[3] = {0, 2, 3}, out[3] = {0, 1, 3};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      B &x = m[pa[i]][pa[j]], &y = m[pb[i]][pb[j]];
      x = std::min(x, a.m[i][j]);
      y = std::min(y, b.m[i][j]);
    }
  for (int k = 0; k < 4; k++)
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++)
        m[i][j] = std::min(m[i][j], ora::add(m[i][k], m[k][j]));
  Z r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      r.m[i][j] = m[out[i]][out[j]];
  for (int i = 0; i < 4; i++)
    if (m[i][i] < ora::BZERO)
      r.m[0][0] = ora::mk(-1, true);
  return r;
}
static Fed compose(const Fed &a, const Fed &b) {
  Fed r;
  for (auto &x : a)
    for (auto &y : b)
      ora::addZone(r, compose(x, y));
  return r;
}
struct SignalRef {
  const ora::Word &w;
  bool weak; // values may last for no time
  Fed get(const T &e) {
    Fed f;
    switch (e->k) {
    case Tre::Atom:
      for (size_t i = 0; i < w.size(); i++)
        if (w[i].c == e->c && !(i && w[i - 1].c == e->c)) {
          size_t k = i;
          while (k + 1 < w.size() && w[k + 1].c == e->c)
            k++;
          Z z;
          z.with(0, 1, ora::mk(-ora::tau(w, int(i) - 1), true)).with(1, 0, ora::mk(w[k].t, weak));
          z.with(0, 2, ora::mk(-ora::tau(w, int(i) - 1), weak)).with(2, 0, ora::mk(w[k].t, true));
          z.with(1, 2, ora::mk(0, weak));
          z.close();
          ora::addZone(f, z);
        }
      return f;
    case Tre::Eps: return f;
    case Tre::Cat: {
      Fed a = get(e->l), b = get(e->r);
      f = compose(a, b);
      if (ora::nullable(e->l))
        ora::join(f, b);
      if (ora::nullable(e->r))
        ora::join(f, a);
      return f;
    }
    case Tre::Or:
      f = get(e->l);
      ora::join(f, get(e->r));
      return f;
    case Tre::And: return ora::meet(get(e->l), get(e->r));
    case Tre::Plus:
    case Tre::Star: {
      Fed a = get(e->l);
      f = a;
      for (Fed last = a; !last.empty();) {
        Fed next;
        for (auto &z : compose(last, a))
          for (auto &p : ora::minus(Fed{z}, f))
            if (!p.empty()) {
              ora::addZone(next, z);
              break;
            }
        ora::join(f, next);
        last = next;
      }
      return f;
    }
    case Tre::Within: {
      Z z;
      ora::constrain(z, 2, 1, e->iv.loC ? ora::GE : ora::GT, e->iv.lo * ora::TICKS);
      if (e->iv.hi >= 0)
        ora::constrain(z, 2, 1, e->iv.hiC ? ora::LE : ora::LT, e->iv.hi * ora::TICKS);
      z.close();
      return ora::meet(get(e->l), z);
    }
    }
    return f;
  }
};
static ora::Matches cells(const Fed &f, const ora::Word &w) {
  ora::Matches m;
  for (int i = 0; i < int(w.size()); i++)
    for (int j = i; j < int(w.size()); j++) {
      Fed x = ora::meet(f, ora::cell(w, i, j));
      if (!x.empty())
        m[{i, j}] = x;
    }
  return m;
}

static bool hasKind(const T &e, Tre::K k) { return e && (e->k == k || hasKind(e->l, k) || hasKind(e->r, k)); }
// the fragment
// The repetition of an interval that excludes a bound is not right, see
// known_findings.txt
static T closed(const T &e) {
  if (!e)
    return e;
  auto p = std::make_shared<Tre>(*e);
  p->l = closed(e->l);
  p->r = closed(e->r);
  if (p->k == Tre::Within && p->iv.hi >= 0)
    p->iv.loC = p->iv.hiC = true;
  return p;
}
static T expr(pbt::Src &s, const std::string &sigma, int budget, int level) {
  if (budget <= 1)
    return ora::atom(s.elem(sigma));
  switch (s.pick({2, 6, 3, level >= 1 ? 4 : 0, level >= 2 ? 3 : 0, level >= 3 ? 2 : 0, level >= 4 ? 2 : 0, level >= 5 ? 2 : 0})) {
  case 0: { // a value with a duration
    auto p = ora::mkT(Tre::Within, ora::atom(s.elem(sigma)));
    p->iv = gen::interval(s);
    p->form = int(s.below(4));
    return p;
  }
  case 1: {
    int l = s.range(1, budget - 1);
    T a = expr(s, sigma, l, level);
    return ora::mkT(Tre::Cat, a, expr(s, sigma, budget - l, level));
  }
  case 2: {
    int l = s.range(1, budget - 1);
    T a = expr(s, sigma, l, level);
    return ora::mkT(Tre::Or, a, expr(s, sigma, budget - l, level));
  }
  case 3: {
    auto p = ora::mkT(Tre::Within, expr(s, sigma, budget - 1, level));
    p->iv = gen::interval(s);
    p->form = int(s.below(4));
    return p;
  }
  case 4: {
    T a = ora::atom(s.elem(sigma));
    if (s.chance(1, 2)) {
      a = ora::mkT(Tre::Within, a);
      a->iv = gen::interval(s);
    }
    return ora::mkT(Tre::Plus, closed(a));
  }
  case 5: {
    int l = s.range(1, budget - 1);
    T a = expr(s, sigma, l, level);
    return ora::mkT(Tre::And, a, expr(s, sigma, budget - l, level));
  }
  case 6: return ora::mkT(Tre::Plus, closed(expr(s, sigma, budget - 1, level)));
  default: return ora::mkT(Tre::Star, closed(expr(s, sigma, budget - 1, level)));
  }
}

// One operand of a conjunction over the values in `letters`: each in pieces of its own
static T pieces(pbt::Src &s, const std::string &letters) {
  T e;
  for (char c : letters) {
    T a = ora::atom(c);
    auto timed = [&](T x, bool exact) {
      auto p = ora::mkT(Tre::Within, x);
      p->iv = gen::interval(s);
      if (exact) {
        p->iv.lo = p->iv.hi = s.range(1, 3);
        p->iv.loC = p->iv.hiC = true;
      }
      p->form = int(s.below(4));
      return p;
    };
    switch (s.below(5)) {
    case 0: break;
    case 1: a = timed(a, false); break;
    case 2: a = ora::mkT(Tre::Plus, timed(a, true)); break; // the repetition is not one interval
    case 3: a = ora::mkT(Tre::Cat, timed(a, true), ora::atom(c)); break;
    default: a = ora::mkT(Tre::Or, timed(a, true), timed(a, false));
    }
    e = e ? ora::mkT(Tre::Cat, e, a) : a;
    if (s.chance(1, 4))
      e = timed(e, false);
  }
  return e;
}

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  static const int level = getenv("C14_LEVEL") ? atoi(getenv("C14_LEVEL")) : 5;
  std::string sigma = gen::alphabet(s);
  T e;
  bool repeat = false;
  if (s.chance(1, 5)) {
    std::string letters(1, s.elem(sigma));
    if (s.chance(1, 2))
      for (char c : sigma)
        if (c != letters[0]) {
          letters += c;
          break;
        }
    T a = pieces(s, letters);
    e = ora::mkT(Tre::And, a, pieces(s, letters));
    if (s.chance(1, 3)) { // the product of a product: its pieces may end alone
      if (s.chance(1, 3)) {
        char c = s.elem(sigma);
        letters += c;
        e = ora::mkT(Tre::Cat, e, ora::atom(c));
      }
      T b = pieces(s, letters);
      e = s.chance(1, 2) ? ora::mkT(Tre::And, e, b) : ora::mkT(Tre::And, b, e);
    }
    if (s.chance(1, 4))
      e = s.chance(1, 2) ? ora::mkT(Tre::Cat, e, ora::atom(s.elem(sigma))) : ora::mkT(Tre::Cat, ora::atom(s.elem(sigma)), e);
  } else if (s.chance(1, 8)) { // the repetition of several clocks
    for (int k = s.range(2, 4); k > 0; k--) {
      T a = ora::atom(sigma[size_t(k) % std::min<size_t>(sigma.size(), 2)]);
      if (s.chance(3, 4)) {
        auto p = ora::mkT(Tre::Within, a);
        p->iv = gen::interval(s);
        p->form = int(s.below(4));
        a = p;
      }
      e = e ? ora::mkT(Tre::Cat, e, a) : a;
      if (s.chance(2, 3)) {
        auto p = ora::mkT(Tre::Within, e);
        p->iv = gen::interval(s);
        if (s.chance(1, 2)) { // mostly feasible together with the others
          p->iv.lo = s.range(0, 1), p->iv.hi = s.range(2, 6);
          p->iv.loC = p->iv.hiC = true;
        }
        p->form = int(s.below(4));
        e = p;
      }
    }
    e = ora::mkT(s.chance(3, 4) ? Tre::Plus : Tre::Star, closed(e));
    if (s.chance(1, 3))
      e = ora::mkT(Tre::Cat, e, ora::atom(s.elem(sigma)));
    repeat = true;
  } else if (s.chance(1, 3))
    e = expr(s, sigma, s.range(1, 6), level);
  else { // values that change, under a bound on the duration
    e = expr(s, sigma, s.range(1, 3), level);
    for (int k = s.range(1, 2); k > 0; k--)
      e = s.chance(1, 2) ? ora::mkT(Tre::Cat, e, expr(s, sigma, s.range(1, 3), level)) : ora::mkT(Tre::Cat, expr(s, sigma, s.range(1, 3), level), e);
    if (s.chance(1, 2)) {
      e = ora::mkT(Tre::Within, e);
      e->iv = gen::interval(s);
      e->form = int(s.below(4));
    }
  }
  ora::Word w;
  int parts = s.range(1, 3);
  for (int k = 0; k < parts && w.size() < 10; k++)
    gen::appendWord(w, s.chance(4, 5) ? gen::timedSample(s, e, repeat ? 9 : 5) : gen::retime(s, std::string(1, s.elem(sigma))), s.chance(1, 2) ? 0 : gen::gap(s));
  // values differ from their neighbours'
  ora::Word v;
  for (auto &x : w) {
    if (!v.empty() && v.back().c == x.c)
      v.back().t = x.t;
    else
      v.push_back(x);
  }
  w = v;
  if (w.size() > 10)
    w.resize(10);
  int scale = gen::scaleFactor(s);
  e = gen::scaleTre(e, scale);
  gen::scaleWord(s, w, scale, false);
  ctx.desc << ora::text(e) << "\nsignal: " << ora::show(w) << "\n";
  auto lib = sut::parseTre(ora::text(e));
  ctx.check(bool(lib), "the expression is not parsed");
  TimedAutomaton A;
  try {
    toSignalTA(lib, A);
  } catch (const char *) { // refused as too large
    throw pbt::Discard();
  }
  AnsVec<Zone> ans;
  sut::FileWord fw(w);
  int status = -1;
  try {
  status = pbt::callCatchingExit([&] {
    pbt::withBudget(600, 80000, [&] { monaa(sut::LazyContainer(fw.f), A, ans); });
  });
  } catch (std::bad_alloc &) { // cycles of unobservable transitions
    throw pbt::Discard();
  }
  ctx.check(status == -1 || status == 10, "unexpected exit " + std::to_string(status));
  std::string err;
  Fed got = sut::zones(ans, err);
  ctx.check(err.empty(), err);
  if (status == 10)
    got.clear();
  auto strict = cells(SignalRef{w, false}.get(e), w), weak = cells(SignalRef{w, true}.get(e), w);
  auto r = ora::compare(got, weak, w, [](int, int) { return false; });
  ctx.check(r.error.empty(), r.error);
  for (auto &kv : strict) {
    Fed miss = ora::minus(kv.second, got);
    if (!miss.empty())
      ctx.fail("missed match: " + ora::show(miss[0]) + " (segments " + std::to_string(kv.first.first) + ".." +
               std::to_string(kv.first.second) + ")");
  }
  bool split = false;
  for (auto &kv : strict)
    split = split || kv.first.first < kv.first.second;
  ctx.nontrivial = split && hasKind(e, Tre::Within);
  if (!strict.empty()) ctx.label("has matches");
  if (hasKind(e, Tre::Plus) || hasKind(e, Tre::Star)) ctx.label("repetition");
  if (repeat) ctx.label("repetition of several clocks");
  if (hasKind(e, Tre::And)) ctx.label("conjunction");
  if (hasKind(e, Tre::Or)) ctx.label("union");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
