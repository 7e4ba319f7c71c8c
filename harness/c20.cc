// C20: signal-style matching with unobservable edges.
#include "sut.hh"

namespace {
using namespace ora;
// general zones over (0, t, e1, ..) in 2*v+closed encoding
struct G {
  int n = 2;
  std::vector<B> m{BZERO, BINF, BINF, BZERO};
  B &at(int i, int j) { return m[size_t(i * n + j)]; }
  B at(int i, int j) const { return m[size_t(i * n + j)]; }
  void with(int i, int j, B b) { at(i, j) = std::min(at(i, j), b); }
  void close() {
    for (int k = 0; k < n; k++)
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          at(i, j) = std::min(at(i, j), add(at(i, k), at(k, j)));
  }
  bool empty() const {
    for (int i = 0; i < n; i++)
      if (at(i, i) < BZERO)
        return true;
    return false;
  }
  int addVar() {
    G r;
    r.n = n + 1;
    r.m.assign(size_t(r.n * r.n), BINF);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        r.at(i, j) = at(i, j);
    r.at(n, n) = BZERO;
    *this = r;
    return n - 1;
  }
};
void constrain(G &z, int p, int q, Op op, int64_t c) {
  switch (op) {
  case LT: z.with(p, q, mk(c, false)); break;
  case LE: z.with(p, q, mk(c, true)); break;
  case GE: z.with(q, p, mk(-c, true)); break;
  case GT: z.with(q, p, mk(-c, false)); break;
  }
}
struct Conf {
  int s;
  std::vector<std::pair<int, int64_t>> reset; // variable (0: constant), offset
  G z;
  G zs;     // the same with all steps at strictly increasing times
  int last; // the newest variable
};
constexpr size_t kMaxConfs = 4000;

// strict: all steps of a run are at strictly increasing times; otherwise
// unobservable steps may coincide with their neighbours.
// degenerate: some state is reached only by steps at the same time.
Matches matchEps(const TA &a, const Word &w, bool strict, bool &over, bool &degenerate) {
  Matches out;
  const int n = int(w.size());
  size_t work = 0;
  auto guard = [&](const Conf &c, const Edge &e, G z, int var, int64_t at, bool &ok) {
    if (z.empty()) {
      ok = false;
      return z;
    }
    for (auto &g : e.guard) {
      auto r = c.reset[size_t(g.x)];
      int64_t k = g.c * TICKS + r.second - at; // var + at - (rvar + off) op c
      if (var == r.first) {
        if (!sat(g.op, 0, k))
          ok = false;
      } else
        constrain(z, var, r.first, g.op, k);
    }
    z.close();
    if (z.empty())
      ok = false;
    return z;
  };
  for (int i = 0; i < n; i++) {
    std::vector<Conf> confs;
    G st;
    st.with(0, 1, mk(-tau(w, i - 1), true));
    st.with(1, 0, mk(tau(w, i), false));
    st.close();
    for (int s = 0; s < a.n; s++)
      if (a.init[size_t(s)])
        confs.push_back({s, std::vector<std::pair<int, int64_t>>(size_t(a.clocks), {1, 0}), st, st, 1});
    for (int j = i; j < n && !confs.empty(); j++) {
      auto newVar = [&](Conf &c) {
        int v = 0;
        for (G *z : {&c.z, &c.zs}) {
          v = z->addVar();
          z->with(v, 0, mk(tau(w, j), true));
          z->with(0, v, mk(-tau(w, j - 1), j == 0));
          z->with(c.last, v, mk(0, !strict && z == &c.z));
          z->close();
        }
        return v;
      };
      // unobservable steps (no cycles)
      for (size_t k = 0; k < confs.size(); k++)
        for (auto &e : a.edges) {
          if (e.src != confs[k].s || e.c != 0)
            continue;
          Conf c = confs[k];
          int v = newVar(c);
          bool ok = !c.z.empty();
          bool oks = !c.zs.empty();
          c.zs = guard(c, e, c.zs, v, 0, oks);
          c.z = guard(c, e, c.z, v, 0, ok);
          if (!ok)
            continue;
          degenerate = degenerate || !oks;
          for (int x : e.reset)
            c.reset[size_t(x)] = {v, 0};
          c.s = e.dst;
          c.last = v;
          confs.push_back(c);
          if (++work > kMaxConfs) {
            over = true;
            return out;
          }
        }
      std::vector<Conf> next;
      for (auto &c0 : confs)
        for (auto &e : a.edges) {
          if (e.src != c0.s || e.c != w[size_t(j)].c)
            continue;
          if (a.acc[size_t(e.dst)]) { // the event moved to t'
            Conf c = c0;
            int v = newVar(c);
            bool ok = !c.z.empty();
            c.z = guard(c, e, c.z, v, 0, ok);
            if (ok) {
              int id[3] = {0, 1, v};
              Z z;
              for (int p = 0; p < 3; p++)
                for (int q = 0; q < 3; q++)
                  z.m[p][q] = c.z.at(id[p], id[q]);
              addZone(out[{i, j}], z);
            }
          }
          Conf c = c0;
          bool ok = true, oks = true;
          c.zs.with(c.last, 0, mk(tau(w, j), false)), c.zs.close();
          if (strict)
            c.z = c.zs;
          c.zs = guard(c, e, c.zs, 0, tau(w, j), oks);
          c.z = guard(c, e, c.z, 0, tau(w, j), ok);
          if (!ok)
            continue;
          degenerate = degenerate || !oks;
          for (int x : e.reset)
            c.reset[size_t(x)] = {0, tau(w, j)};
          c.s = e.dst;
          next.push_back(c);
          if (++work > kMaxConfs) {
            over = true;
            return out;
          }
        }
      confs = std::move(next);
    }
  }
  return out;
}
} // namespace

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  gen::TAOpt o;
  o.sigma = s.elem(std::vector<std::string>{"ab", "a", "ab", "a", "ab", "a", "ab", "z", "~a"});
  bool chains = s.chance(1, 5); // longer chains of unobservable edges
  o.maxStates = chains ? 7 : 4;
  o.maxClocks = 2;
  o.dollar = false;
  o.eps = true;
  o.maxExtra = chains ? 2 : 4;
  ora::TA a = gen::automaton(s, o);
  // turn some forward edges into unobservable ones; no unobservable cycle, none into accepting states
  int eps = 0;
  for (auto &e : a.edges) {
    bool may = e.dst > e.src && !a.acc[size_t(e.dst)];
    if (e.c == 0 && !may)
      e.c = o.sigma[0];
    else if (e.c && may && (chains ? s.chance(4, 5) : s.chance(1, 2)))
      e.c = 0;
    for (auto &g : e.guard)
      if (g.c > 5)
        g.c %= 6;
    eps += e.c == 0;
  }
  auto perm = sut::permutation(s, a.n);
  ora::Word w = gen::logFor(s, a, o.sigma, 8);
  gen::scale(s, a, w);
  ctx.desc << ora::show(a) << "log: " << ora::show(w);
  bool over = false, degenerate = false;
  auto strict = matchEps(a, w, true, over, degenerate);
  degenerate = false;
  auto weak = matchEps(a, w, false, over, degenerate);
  if (over)
    throw pbt::Discard();
  TimedAutomaton A;
  sut::build(a, A, perm);
  AnsVec<Zone> ans;
  int status = pbt::callCatchingExit([&] {
    pbt::withBudget(sut::kBig, sut::kAll, [&] { monaa(sut::MemContainer(w), A, ans); });
  });
  ctx.check(status == -1 || status == 10, "unexpected exit " + std::to_string(status));
  std::string err;
  ora::Fed got = sut::zones(ans, err);
  ctx.check(err.empty(), err);
  if (status == 10) {
    ctx.label("reported as empty pattern");
    got.clear();
  }
  ora::Fed all, must;
  for (auto &kv : weak)
    for (auto &z : kv.second)
      ora::addZone(all, z);
  size_t n = 0;
  for (auto &kv : strict)
    for (auto &z : kv.second)
      ora::addZone(must, z), n++;
  auto extra = ora::minus(got, all);
  ctx.check(extra.empty(), "reported but not a match: " + (extra.empty() ? "" : ora::show(extra[0])));
  if (degenerate) { // a step is forced to coincide with another: completeness is not judged
    ctx.label("forced coincidence");
    return;
  }
  auto miss = ora::minus(must, got);
  ctx.check(miss.empty(), "missed match: " + (miss.empty() ? "" : ora::show(miss[0])));
  ctx.nontrivial = eps > 0 && n > 0 && a.clocks > 0;
  if (n) ctx.label("has matches");
  if (eps > 1) ctx.label("several unobservable edges");
  if (eps > 3) ctx.label("> 3 unobservable edges");
  if (a.clocks >= 2) ctx.label(">= 2 clocks");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop); }
