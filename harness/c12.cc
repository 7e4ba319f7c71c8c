// C12: operations on zones against the sets of clock valuations they denote.
#include "pbt.hh"
#include "zone.hh"

using std::vector;
// reference DBM: ints, 2*v + closed
using B = int64_t;
constexpr B INF = B(1) << 40;
static B mk(int64_t v, bool c) { return 2 * v + (c ? 1 : 0); }
static B add(B a, B b) { return a >= INF || b >= INF ? INF : (a & ~B(1)) + (b & ~B(1)) + (a & b & 1); }
struct D {
  int n; // clocks + 1
  vector<B> m;
  explicit D(int n) : n(n), m(size_t(n) * size_t(n), INF) {
    for (int i = 0; i < n; i++)
      at(i, i) = 1;
  }
  B &at(int i, int j) { return m[size_t(i) * size_t(n) + size_t(j)]; }
  B at(int i, int j) const { return m[size_t(i) * size_t(n) + size_t(j)]; }
  void close() {
    for (int k = 0; k < n; k++)
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          at(i, j) = std::min(at(i, j), add(at(i, k), at(k, j)));
  }
  bool empty() const {
    for (int i = 0; i < n; i++)
      if (at(i, i) < 1)
        return true;
    return false;
  }
};
static std::string show(const D &d) {
  std::string r;
  for (int i = 0; i < d.n; i++)
    for (int j = 0; j < d.n; j++)
      if (i != j && d.at(i, j) < INF)
        r += "v" + std::to_string(i) + "-v" + std::to_string(j) + (d.at(i, j) & 1 ? "<=" : "<") +
             std::to_string(d.at(i, j) >> 1) + " ";
  return r;
}
// what the library's zone denotes
static D denote(const Zone &z) {
  D d(int(z.value.cols()));
  for (int i = 0; i < d.n; i++)
    for (int j = 0; j < d.n; j++) {
      Bounds b = z.value(i, j);
      B v = std::isinf(b.first) ? (b.first > 0 ? INF : -INF) : mk(int64_t(b.first), b.second);
      if (i == j)
        v = std::min<B>(v, 1);
      d.at(i, j) = v;
    }
  d.close();
  return d;
}
static bool same(const D &a, const D &b) { return a.empty() == b.empty() && (a.empty() || a.m == b.m); }
static bool subset(const D &a, const D &b) {
  if (a.empty())
    return true;
  if (b.empty())
    return false;
  for (size_t i = 0; i < a.m.size(); i++)
    if (a.m[i] > b.m[i])
      return false;
  return true;
}
static D elapsed(const D &d) { // strictly positive delays; d closed
  D r = d;
  for (int i = 1; i < r.n; i++) {
    r.at(i, 0) = INF;
    if (r.at(0, i) < INF)
      r.at(0, i) &= ~B(1);
  }
  r.close();
  return r;
}
static D resetTo0(const D &d, int x) {
  D r = d;
  for (int j = 0; j < r.n; j++)
    if (j != x) {
      r.at(x, j) = d.at(0, j);
      r.at(j, x) = d.at(j, 0);
    }
  r.at(x, 0) = r.at(0, x) = 1;
  r.close();
  return r;
}

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  int clocks = s.range(1, 4), n = clocks + 1;
  bool fromUniversal = s.chance(1, 4);
  Zone z = fromUniversal ? Zone::universal(clocks) : Zone::zero(n);
  D d(n);
  if (!fromUniversal)
    for (auto &b : d.m)
      b = 1;
  if (fromUniversal) // clocks are never negative
    for (int x = 1; x < n; x++) {
      z.tighten(ClockVariables(-1), ClockVariables(x - 1), {0, true});
      d.at(0, x) = 1;
    }
  d.close();
  ctx.desc << clocks << " clocks, " << (fromUniversal ? "universal" : "zero");
  int M = s.range(0, 8);
  z.M = Bounds(M, true);
  int steps = s.range(1, 10), ops = 0;
  bool canonical = true;  // the stored matrix is known to be tight
  bool tight = false;
  auto checkSame = [&](const char *what) {
    D got = denote(z);
    ctx.check(same(got, d), std::string(what) + ": denotes {" + show(got) + "} instead of {" + show(d) + "}");
  };
  for (int k = 0; k < steps; k++) {
    int op = s.pick({6, 4, 3, 2, 2, 1, 1, 1, 1, 1});
    if (op == 0) { // x - y <= c
      int x = s.range(0, clocks), y = s.range(0, clocks - 1);
      if (y >= x)
        y++;
      int c = s.range(-6, 8);
      if (x == 0) c = -std::abs(c);
      bool cl = !s.chance(1, 2);
      if (s.chance(3, 4) && d.at(y, x) < INF && -(d.at(y, x) >> 1) >= c) {
        // keep the zone non-empty, often barely
        c = int(-(d.at(y, x) >> 1)) + s.range(0, 3);
        if (c == -(d.at(y, x) >> 1) && !(d.at(y, x) & 1))
          c++;
        else if (c == -(d.at(y, x) >> 1))
          cl = true;
      }
      ctx.desc << "; v" << x << "-v" << y << (cl ? "<=" : "<") << c;
      z.tighten(ClockVariables(x - 1), ClockVariables(y - 1), {double(c), cl});
      d.at(x, y) = std::min(d.at(x, y), mk(c, cl));
      d.close();
      checkSame("tighten");
      tight = true;
    } else if (op == 1) {
      ctx.desc << "; elapse";
      z.canonize();
      z.elapse();
      d = elapsed(d);
      checkSame("elapse");
    } else if (op == 2) {
      int x = s.range(1, clocks);
      ctx.desc << "; reset v" << x;
      z.canonize();
      z.reset(ClockVariables(x - 1));
      d = resetTo0(d, x);
      checkSame("reset");
    } else if (op == 3) {
      ctx.desc << "; canonize";
      Zone before = z;
      z.canonize();
      checkSame("canonize");
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          if (i != j) {
            Bounds b = z.value(i, j);
            B v = std::isinf(b.first) ? INF : mk(int64_t(b.first), b.second);
            ctx.check(v == d.at(i, j), "canonize leaves a bound that is not tight");
          }
      Zone twice = z;
      twice.canonize();
      ctx.check(twice == z, "canonize is not idempotent");
    } else if (op == 4) {
      ctx.desc << "; satisfiable?";
      Zone c = z;
      ctx.check(c.isSatisfiable() == !d.empty(), "isSatisfiable is wrong");
      checkSame("isSatisfiable");
    } else if (op == 5) { // projection
      int from = s.range(0, clocks - 1), to = s.range(from, clocks - 1);
      ctx.desc << "; project " << from << ".." << to;
      z.canonize();
      std::shared_ptr<Zone> out;
      z.cutVars(out, size_t(from), size_t(to));
      D want(to - from + 2);
      auto id = [&](int i) { return i == 0 ? 0 : from + i; };
      for (int i = 0; i < want.n; i++)
        for (int j = 0; j < want.n; j++)
          want.at(i, j) = d.at(id(i), id(j));
      ctx.check(int(out->getNumOfVar()) == to - from + 1, "the projection has a wrong number of clocks");
      ctx.check(same(denote(*out), want), "the projection is wrong: {" + show(denote(*out)) + "} instead of {" + show(want) + "}");
    } else if (op == 6) { // intersection
      Zone other = Zone::universal(clocks);
      other.M = z.M;
      D o(n);
      int c = s.range(1, 3);
      ctx.desc << "; intersect";
      for (int q = 0; q < c; q++) {
        int x = s.range(0, clocks), y = s.range(0, clocks - 1);
        if (y >= x)
          y++;
        int v = s.range(-4, 8);
        bool cl = s.chance(1, 2);
        ctx.desc << " v" << x << "-v" << y << (cl ? "<=" : "<") << v;
        other.tighten(ClockVariables(x - 1), ClockVariables(y - 1), {double(v), cl});
        o.at(x, y) = std::min(o.at(x, y), mk(v, cl));
      }
      o.close();
      z.intersectionAssign(other);
      for (size_t i = 0; i < d.m.size(); i++)
        d.m[i] = std::min(d.m[i], o.m[i]);
      d.close();
      z.canonize();
      checkSame("intersectionAssign");
    } else if (op == 7) { // the guard
      Zone c = z;
      ctx.desc << "; guard";
      auto g = c.makeGuard();
      if (!d.empty()) {
        D box(n);
        for (auto &e : g) {
          int x = int(e.x) + 1;
          if (e.odr == Constraint::Order::lt) box.at(x, 0) = std::min(box.at(x, 0), mk(e.c, false));
          if (e.odr == Constraint::Order::le) box.at(x, 0) = std::min(box.at(x, 0), mk(e.c, true));
          if (e.odr == Constraint::Order::gt) box.at(0, x) = std::min(box.at(0, x), mk(-e.c, false));
          if (e.odr == Constraint::Order::ge) box.at(0, x) = std::min(box.at(0, x), mk(-e.c, true));
        }
        box.close();
        ctx.check(subset(d, box), "the guard excludes a member of the zone: {" + show(box) + "}");
        for (int x = 1; x < n; x++) {
          // bounds by constants below M are kept
          if ((d.at(x, 0) >> 1) < M)
            ctx.check(box.at(x, 0) == d.at(x, 0), "the guard's upper bound of clock " + std::to_string(x) + " is not the strongest");
          if (d.at(0, x) < 1 && -(d.at(0, x) >> 1) < M)
            ctx.check(box.at(0, x) == d.at(0, x), "the guard's lower bound of clock " + std::to_string(x) + " is not the strongest");
        }
      }
    } else if (op == 8) { // equality
      Zone c = z, e = z;
      ctx.desc << "; compare";
      c.canonize();
      e.canonize();
      ctx.check(c == e, "a zone differs from itself");
      int x = s.range(1, clocks);
      int v = s.range(0, 6);
      bool cl = s.chance(1, 2);
      e.tighten(ClockVariables(x - 1), ClockVariables(-1), {double(v), cl});
      e.canonize();
      D o = d;
      o.at(x, 0) = std::min(o.at(x, 0), mk(v, cl));
      o.close();
      if (!d.empty() && !o.empty())
        ctx.check((c == e) == (o.m == d.m), "equality of canonical zones is not equality of sets");
    } else {
      ctx.desc << "; abstract by " << M;
      z.canonize();
      Zone c = z;
      c.abstractize();
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          ctx.check(std::isinf(c.value(i, j).first) || std::fabs(c.value(i, j).first) <= M, "the abstraction keeps a constant beyond the bound");
      c.canonize();
      D a = denote(c);
      if (!d.empty()) {
        ctx.check(subset(d, a), "the abstraction excludes a member of the zone");
        ctx.check(c.isSatisfiable(), "the abstraction of a non-empty zone is empty");
      }
    }
    ops++;
    if (d.empty()) {
      ctx.check(!Zone(z).isSatisfiable(), "an empty zone is satisfiable");
      ctx.label("became empty");
      break;
    }
  }
  if (s.chance(1, 10)) {
    z.makeUnsat();
    ctx.desc << "; makeUnsat";
    ctx.check(!z.isSatisfiable(), "makeUnsat leaves a satisfiable zone");
  }
  (void)canonical;
  ctx.nontrivial = tight && ops >= 3;
  if (clocks >= 3) ctx.label(">= 3 clocks");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop, 500); }
