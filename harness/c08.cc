// C08: the product of two automata accepts exactly the common words.
#include "sut.hh"
#include "intersection.hh"

// Membership with unobservable edges on the tick grid: unobservable edges may be
// taken at any tick.  Product and components are judged by the same semantics.
static bool acceptsEps(const ora::TA &a, const ora::Word &w) {
  using C = std::pair<int, std::vector<int64_t>>;
  std::set<C> cur;
  for (int s = 0; s < a.n; s++)
    if (a.init[size_t(s)])
      cur.insert({s, std::vector<int64_t>(size_t(a.clocks), 0)});
  auto step = [&](const C &c, const ora::Edge &e, int64_t t, std::set<C> &out) {
    for (auto &g : e.guard)
      if (!ora::sat(g.op, t - c.second[size_t(g.x)], g.c * 2))
        return false;
    C d{e.dst, c.second};
    for (int x : e.reset)
      d.second[size_t(x)] = t;
    return out.insert(d).second;
  };
  auto closure = [&](int64_t t) {
    std::vector<C> todo(cur.begin(), cur.end());
    while (!todo.empty()) {
      C c = todo.back();
      todo.pop_back();
      for (auto &e : a.edges)
        if (e.src == c.first && e.c == 0) {
          std::set<C> one;
          if (step(c, e, t, one) && cur.insert(*one.begin()).second)
            todo.push_back(*one.begin());
        }
    }
  };
  int64_t now = 0;
  closure(0);
  for (auto &ev : w) {
    for (; now < ev.t;)
      now++, closure(now);
    std::set<C> next;
    for (auto &c : cur)
      for (auto &e : a.edges)
        if (e.src == c.first && e.c == ev.c)
          step(c, e, now, next);
    cur.swap(next);
    closure(now);
  }
  for (auto &c : cur)
    if (a.acc[size_t(c.first)])
      return true;
  return false;
}

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TAOpt o;
  o.sigma = s.elem(std::vector<std::string>{"ab", "a", "ab", "a", "ab", "a", "ab", "z", "~a"});
  o.maxStates = 3;
  o.maxClocks = 2;
  o.dollar = false;
  o.freeAccept = true;
  o.eps = s.chance(1, 2);
  auto smallConst = [](ora::TA &a) {
    for (auto &e : a.edges)
      for (auto &g : e.guard)
        g.c %= 4;
  };
  ora::TA a = gen::automaton(s, o);
  bool same = s.chance(1, 8);
  ora::TA b = same ? a : gen::automaton(s, o);
  smallConst(a);
  smallConst(b);
  ctx.desc << ora::show(a) << "and " << (same ? "itself\n" : ora::show(b));
  // large constants: the same automata with another unit of time
  int scale = gen::scaleFactor(s);
  auto scaled = [&](ora::TA x) {
    gen::scaleTA(x, scale);
    return x;
  };
  auto unscaled = [&](ora::TA x) {
    for (auto &e : x.edges)
      for (auto &g : e.guard) {
        ctx.check(g.c % scale == 0, "a guard constant of the product is in no input: " + std::to_string(g.c));
        g.c /= scale;
      }
    return x;
  };
  if (scale > 1)
    ctx.desc << "constants multiplied by " << scale << "\n";
  TimedAutomaton A, B0;
  sut::build(scaled(a), A, sut::permutation(s, a.n));
  if (!same)
    sut::build(scaled(b), B0, sut::permutation(s, b.n));
  TimedAutomaton &B = same ? A : B0;
  TimedAutomaton P;
  boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m;
  intersectionTA(A, B, P, m);
  std::string err;
  ora::TA p = unscaled(sut::readBack(P, err));
  ctx.check(err.empty(), err);
  for (auto &e : p.edges)
    for (auto &g : e.guard)
      ctx.check(P.maxConstraints[size_t(g.x)] >= g.c * scale, "a guard constant exceeds the declared maximum of its clock");
  // the inputs keep their languages
  ora::TA a2 = unscaled(sut::readBack(A, err)), b2 = unscaled(sut::readBack(B, err));
  bool seen[4] = {false, false, false, false};
  auto judge = [&](int words) {
    for (int k = 0; k < words; k++) {
      std::string l = s.chance(3, 4) ? gen::walk(s, s.chance(1, 2) ? a : b, 4) : "";
      if (l.empty())
        for (int i = s.range(0, 4); i > 0; i--)
          l += s.elem(o.sigma);
      ora::Word w;
      int64_t t = 0;
      for (char c : l) {
        t += s.range(1, 5); // half units
        w.push_back({c, t});
      }
      bool x = acceptsEps(a, w), y = acceptsEps(b, w);
      bool got = acceptsEps(p, w);
      seen[x * 2 + y] = true;
      std::string sw;
      for (auto &e : w)
        sw += std::string(1, e.c) + " " + std::to_string(double(e.t) / 2) + "; ";
      ctx.check(got == (x && y), std::string(got ? "accepted by the product but not by both: "
                                                 : "accepted by both but not by the product: ") + sw);
      ctx.check(acceptsEps(a2, w) == x && acceptsEps(b2, w) == y, "an input automaton was changed");
    }
  };
  judge(s.range(3, 8));
  // the automata begin and end elsewhere: the product follows
  if (!same && s.chance(1, 3)) {
    for (int round = s.range(1, 2); round > 0; round--) {
      for (ora::TA *x : {&a, &b}) {
        TimedAutomaton &X = x == &a ? A : B;
        X.initialStates.clear();
        int first = s.range(0, x->n - 1), last = s.chance(2, 3) ? s.range(0, x->n - 1) : -1;
        ctx.desc << "\nthen" << (x == &a ? " first:" : " second:");
        for (int q = 0; q < x->n; q++) {
          x->init[size_t(q)] = q == first || s.chance(1, 5);
          x->acc[size_t(q)] = q == last || s.chance(1, 4);
          X.states[size_t(q)]->isMatch = x->acc[size_t(q)];
          if (x->init[size_t(q)])
            X.initialStates.push_back(X.states[size_t(q)]);
          ctx.desc << " " << q << (x->init[size_t(q)] ? "i" : "") << (x->acc[size_t(q)] ? "a" : "");
        }
      }
      updateInitAccepting(A, B, P, m);
      p = unscaled(sut::readBack(P, err));
      a2 = unscaled(sut::readBack(A, err)), b2 = unscaled(sut::readBack(B, err));
      ctx.check(err.empty(), err);
      judge(s.range(1, 4));
    }
    ctx.label("other initial and accepting states");
  }
  bool timed = false;
  for (auto &e : p.edges)
    timed = timed || !e.guard.empty();
  ctx.nontrivial = seen[3] && timed;
  if (seen[3]) ctx.label("a common word");
  if (seen[1] || seen[2]) ctx.label("a word of one only");
  if (o.eps) ctx.label("unobservable edges");
  if (same) ctx.label("automaton with itself");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
