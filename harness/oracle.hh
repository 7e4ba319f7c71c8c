// Reference semantics, independent of the code under test.
// Times are integers ("ticks", 8 per time unit); bounds are encoded exactly.
#pragma once
#include "pbt.hh"
#include <map>
#include <memory>
#include <optional>

namespace ora {

constexpr int64_t TICKS = 8;

// ---- bounds: 2*value + (closed ? 1 : 0); larger is weaker -------------------
using B = int64_t;
constexpr B BINF = INT64_C(1) << 60;
inline B mk(int64_t v, bool closed) { return 2 * v + (closed ? 1 : 0); }
inline B add(B a, B b) {
  if (a >= BINF || b >= BINF)
    return BINF;
  return (a & ~B(1)) + (b & ~B(1)) + (a & b & 1);
}
constexpr B BZERO = 1; // <= 0
// negation of  x - y <= / < v   is   y - x < / <= -v
inline B neg(B b) { return mk(-(b >> 1), !(b & 1)); }

// ---- zones over (0, t, t') --------------------------------------------------
struct Z {
  B m[3][3];
  Z() {
    for (auto &r : m)
      for (auto &c : r)
        c = BINF;
    for (int i = 0; i < 3; i++)
      m[i][i] = BZERO;
  }
  void close() {
    for (int k = 0; k < 3; k++)
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
          m[i][j] = std::min(m[i][j], add(m[i][k], m[k][j]));
  }
  bool empty() const { return m[0][0] < BZERO || m[1][1] < BZERO || m[2][2] < BZERO; }
  Z &with(int i, int j, B b) {
    if (b < m[i][j])
      m[i][j] = b;
    return *this;
  }
  bool operator<=(const Z &o) const { // inclusion, both closed and non-empty
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        if (m[i][j] > o.m[i][j])
          return false;
    return true;
  }
  bool contains(int64_t t, int64_t u) const {
    int64_t v[3] = {0, t, u};
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        if (m[i][j] < BINF && mk(v[i] - v[j], true) > m[i][j])
          return false;
    return true;
  }
};
using Fed = std::vector<Z>;

inline Z meet(const Z &a, const Z &b) {
  Z r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      r.m[i][j] = std::min(a.m[i][j], b.m[i][j]);
  r.close();
  return r;
}
inline void addZone(Fed &f, const Z &z) { // z closed
  if (z.empty())
    return;
  for (auto &o : f)
    if (z <= o)
      return;
  f.erase(std::remove_if(f.begin(), f.end(), [&](const Z &o) { return o <= z; }), f.end());
  f.push_back(z);
}
inline Fed meet(const Fed &a, const Fed &b) {
  Fed r;
  for (auto &x : a)
    for (auto &y : b)
      addZone(r, meet(x, y));
  return r;
}
inline Fed meet(const Fed &a, const Z &z) {
  Fed r;
  for (auto &x : a)
    addZone(r, meet(x, z));
  return r;
}
inline void join(Fed &a, const Fed &b) {
  for (auto &z : b)
    addZone(a, z);
}
inline Fed minus(const Z &a, const Z &b) {
  Fed r;
  if (a.empty())
    return r;
  Z rest = a;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (i != j && b.m[i][j] < BINF) {
        Z piece = rest;
        piece.with(j, i, neg(b.m[i][j]));
        piece.close();
        if (!piece.empty())
          r.push_back(piece);
        rest.with(i, j, b.m[i][j]);
        rest.close();
        if (rest.empty())
          return r;
      }
  return r;
}
inline Fed minus(const Fed &a, const Fed &b) {
  Fed cur = a;
  for (auto &z : b) {
    Fed next;
    for (auto &x : cur)
      for (auto &p : minus(x, z))
        next.push_back(p);
    cur = std::move(next);
    if (cur.empty())
      break;
  }
  return cur;
}

inline std::string num(int64_t v) {
  std::ostringstream o;
  o << double(v) / double(TICKS);
  return o.str();
}
inline std::string show(const Z &z) {
  std::ostringstream o;
  auto one = [&](int i, int j, const char *n) {
    B lo = z.m[j][i], hi = z.m[i][j];
    o << (lo >= BINF ? "-inf" : num(-(lo >> 1))) << (lo & 1 ? "<=" : "<") << n
      << (hi & 1 ? "<=" : "<") << (hi >= BINF ? "inf" : num(hi >> 1));
  };
  one(1, 0, "t");
  o << ", ";
  one(2, 0, "t'");
  o << ", ";
  one(2, 1, "t'-t");
  return o.str();
}

// ---- timed words -------------------------------------------------------------
struct Ev {
  char c;
  int64_t t;
};
using Word = std::vector<Ev>;
inline std::string show(const Word &w) {
  std::ostringstream o;
  for (auto &e : w)
    o << e.c << ' ' << num(e.t) << "; ";
  return o.str();
}
inline std::string logText(const Word &w) {
  std::ostringstream o;
  o.precision(17);
  for (auto &e : w)
    o << e.c << ' ' << double(e.t) / double(TICKS) << "\n";
  return o.str();
}
// tau_{k}: time of event k; tau_{-1} = 0
inline int64_t tau(const Word &w, int k) { return k < 0 ? 0 : w[size_t(k)].t; }

// t in [tau_{i-1}, tau_i), t' in (tau_{j-1}, tau_j]  (unbounded past the end)
inline Z cell(const Word &w, int i, int j) {
  Z z;
  int n = int(w.size());
  z.with(0, 1, mk(-tau(w, i - 1), true));
  if (i < n)
    z.with(1, 0, mk(tau(w, i), false));
  z.with(0, 2, mk(-tau(w, j - 1), false));
  if (j < n)
    z.with(2, 0, mk(tau(w, j), true));
  z.with(1, 2, mk(0, false)); // t < t'
  z.close();
  return z;
}

// ---- constraints and automata ------------------------------------------------
enum Op { LT, LE, GE, GT };
inline const char *opText(Op o) {
  static const char *s[] = {"<", "<=", ">=", ">"};
  return s[o];
}
struct Guard {
  int x;
  Op op;
  int c;
};
struct Edge {
  int src, dst;
  char c;
  std::vector<Guard> guard;
  std::vector<int> reset;
};
struct TA {
  int n = 0, clocks = 0;
  std::vector<char> init, acc;
  std::vector<Edge> edges;
};
inline bool sat(Op op, int64_t v, int64_t c) {
  switch (op) {
  case LT: return v < c;
  case LE: return v <= c;
  case GE: return v >= c;
  default: return v > c;
  }
}
inline std::string show(const TA &a) {
  std::ostringstream o;
  o << "TA states=" << a.n << " clocks=" << a.clocks << " init={";
  for (int i = 0; i < a.n; i++)
    if (a.init[size_t(i)]) o << i << ' ';
  o << "} acc={";
  for (int i = 0; i < a.n; i++)
    if (a.acc[size_t(i)]) o << i << ' ';
  o << "}\n";
  for (auto &e : a.edges) {
    o << "  " << e.src << " -" << (e.c ? std::string(1, e.c) : std::string("eps")) << "-> " << e.dst << " [";
    for (auto &g : e.guard)
      o << "x" << g.x << opText(g.op) << g.c << ' ';
    o << "] reset{";
    for (int r : e.reset)
      o << r << ' ';
    o << "}\n";
  }
  return o.str();
}

// constraint  (x_p - x_q) op c  on a zone
inline void constrain(Z &z, int p, int q, Op op, int64_t c) {
  switch (op) {
  case LT: z.with(p, q, mk(c, false)); break;
  case LE: z.with(p, q, mk(c, true)); break;
  case GE: z.with(q, p, mk(-c, true)); break;
  case GT: z.with(q, p, mk(-c, false)); break;
  }
}

// Which labelled edges end a match, and where its end may lie.
enum class EndRule {
  Dollar,  // `$` inserted at t' in (tau_{j-1}, tau_j]
  Advance, // the next event itself, moved forward to t' in (tau_{j-1}, tau_j]
};

// matches[(i,j)]: the set of (t,t') in cell(i,j) that are matches.
// eventEnds (non-null): also matches ending exactly at an event that enters an
// accepting state, t' = tau_j, stored under (i, j) with j the event's index.
using Matches = std::map<std::pair<int, int>, Fed>;
inline Matches matchTA(const TA &a, const Word &w, EndRule rule, Matches *eventEnds = nullptr) {
  Matches out;
  const int n = int(w.size());
  std::vector<std::vector<const Edge *>> bySrc(size_t(a.n));
  for (auto &e : a.edges)
    bySrc[size_t(e.src)].push_back(&e);
  using Key = std::pair<int, std::vector<int>>;
  for (int i = 0; i <= n; i++) {
    std::map<Key, Fed> confs;
    Z start;
    start.with(0, 1, mk(-tau(w, i - 1), true));
    if (i < n)
      start.with(1, 0, mk(tau(w, i), false));
    start.close();
    for (int s = 0; s < a.n; s++)
      if (a.init[size_t(s)])
        confs[{s, std::vector<int>(size_t(a.clocks), -1)}] = {start};
    for (int j = i; j <= n && !confs.empty(); j++) {
      const Z cl = cell(w, i, j);
      for (auto &kv : confs)
        for (const Edge *e : bySrc[size_t(kv.first.first)]) {
          if (!a.acc[size_t(e->dst)])
            continue;
          if (rule == EndRule::Dollar ? e->c != '$' : (j >= n || e->c != w[size_t(j)].c))
            continue;
          for (auto &z0 : kv.second) {
            Z z = meet(z0, cl);
            for (auto &g : e->guard) {
              int r = kv.first.second[size_t(g.x)];
              if (r < 0)
                constrain(z, 2, 1, g.op, g.c * TICKS);
              else
                constrain(z, 2, 0, g.op, g.c * TICKS + tau(w, r));
            }
            z.close();
            if (!z.empty())
              addZone(out[{i, j}], z);
          }
        }
      if (j == n)
        break;
      std::map<Key, Fed> next;
      for (auto &kv : confs)
        for (const Edge *e : bySrc[size_t(kv.first.first)]) {
          if (e->c != w[size_t(j)].c)
            continue;
          Key k{e->dst, kv.first.second};
          for (int x : e->reset)
            k.second[size_t(x)] = j;
          for (auto z : kv.second) {
            bool ok = true;
            for (auto &g : e->guard) {
              int r = kv.first.second[size_t(g.x)];
              if (r < 0)
                constrain(z, 0, 1, g.op, g.c * TICKS - tau(w, j)); // tau_j - t op c
              else
                ok = ok && sat(g.op, tau(w, j) - tau(w, r), g.c * TICKS);
            }
            z.close();
            if (ok && !z.empty()) {
              addZone(next[k], z);
              if (eventEnds && a.acc[size_t(e->dst)]) {
                Z y = z;
                y.with(2, 0, mk(tau(w, j), true)).with(0, 2, mk(-tau(w, j), true));
                y.close();
                addZone((*eventEnds)[{i, j}], y);
              }
            }
          }
        }
      confs.clear();
      for (auto &kv : next)
        if (!kv.second.empty())
          confs.insert(std::move(kv));
    }
  }
  return out;
}

// ---- membership of a timed word (delays from 0) -----------------------------
inline bool acceptsTA(const TA &a, const Word &w) {
  std::set<std::pair<int, std::vector<int64_t>>> cur, next;
  for (int s = 0; s < a.n; s++)
    if (a.init[size_t(s)])
      cur.insert({s, std::vector<int64_t>(size_t(a.clocks), 0)}); // reset times
  for (auto &ev : w) {
    next.clear();
    for (auto &c : cur)
      for (auto &e : a.edges) {
        if (e.src != c.first || e.c != ev.c)
          continue;
        bool ok = true;
        for (auto &g : e.guard)
          ok = ok && sat(g.op, ev.t - c.second[size_t(g.x)], g.c * TICKS);
        if (!ok)
          continue;
        auto v = c.second;
        for (int x : e.reset)
          v[size_t(x)] = ev.t;
        next.insert({e.dst, v});
      }
    cur.swap(next);
  }
  for (auto &c : cur)
    if (a.acc[size_t(c.first)])
      return true;
  return false;
}

// ---- timed regular expressions ----------------------------------------------
struct Ival {
  int lo = 0, hi = -1; // hi < 0: unbounded
  bool loC = true, hiC = false;
  bool has(int64_t ticks) const {
    return (loC ? ticks >= lo * TICKS : ticks > lo * TICKS) &&
           (hi < 0 || (hiC ? ticks <= hi * TICKS : ticks < hi * TICKS));
  }
};
struct Tre;
using T = std::shared_ptr<Tre>;
struct Tre {
  enum K { Atom, Eps, Cat, Or, And, Plus, Star, Within } k;
  char c = 0;
  T l, r;
  Ival iv;
  int form = 0; // how the interval is written
  int id = -1;
};
inline T mkT(Tre::K k, T l = nullptr, T r = nullptr) {
  auto p = std::make_shared<Tre>();
  p->k = k;
  p->l = std::move(l);
  p->r = std::move(r);
  return p;
}
inline T atom(char c) {
  auto p = mkT(Tre::Atom);
  p->c = c;
  return p;
}
inline std::string ivText(const Ival &v, int form) {
  std::ostringstream o;
  if (v.hi < 0) {
    o << (form & 1 ? "(" : "") << (v.loC ? ">=" : ">") << v.lo << (form & 1 ? ")" : "");
  } else if ((form & 2) && v.lo == v.hi && v.loC && v.hiC) {
    o << (form & 1 ? "(" : "") << "=" << v.lo << (form & 1 ? ")" : "");
  } else if ((form & 2) && v.lo == 0 && v.loC) {
    o << (form & 1 ? "(" : "") << (v.hiC ? "<=" : "<") << v.hi << (form & 1 ? ")" : "");
  } else
    o << (v.loC ? "[" : "(") << v.lo << "," << v.hi << (v.hiC ? "]" : ")");
  return o.str();
}
// fully parenthesised concrete syntax
inline std::string text(const T &e) {
  switch (e->k) {
  case Tre::Atom: return std::string(1, e->c);
  case Tre::Eps: return "<eps>"; // has no concrete syntax
  case Tre::Cat: return "(" + text(e->l) + text(e->r) + ")";
  case Tre::Or: return "(" + text(e->l) + "|" + text(e->r) + ")";
  case Tre::And: return "(" + text(e->l) + "&" + text(e->r) + ")";
  case Tre::Plus: return "(" + text(e->l) + "+)";
  case Tre::Star: return "(" + text(e->l) + "*)";
  case Tre::Within: return "(" + text(e->l) + "%" + ivText(e->iv, e->form) + ")";
  }
  return "";
}
inline bool nullable(const T &e) {
  switch (e->k) {
  case Tre::Atom: return false;
  case Tre::Eps: case Tre::Star: return true;
  case Tre::Cat: case Tre::And: return nullable(e->l) && nullable(e->r);
  case Tre::Or: return nullable(e->l) || nullable(e->r);
  case Tre::Plus: return nullable(e->l);
  case Tre::Within: return nullable(e->l) && e->iv.has(0);
  }
  return false;
}
inline int number(const T &e, int next = 0) {
  if (!e)
    return next;
  e->id = next++;
  next = number(e->l, next);
  return number(e->r, next);
}

// Matching of an expression over the fragment "events p..q-1 [then $]".
class TreMatcher {
  const Word &w;
  int n, nodes;
  std::vector<std::vector<std::optional<Fed>>> memo, memoPlus;
  size_t key(int p, bool sT, int q, bool eD) const {
    return ((size_t(p) * 2 + sT) * size_t(n + 1) + size_t(q)) * 2 + eD;
  }
  Z duration(const Ival &v, int p, bool sT, int q, bool eD) const {
    // end - start in v
    Z z;
    int64_t off = 0; // value = x_e - x_s + off
    int e = 0, s = 0;
    if (eD) e = 2; else off += tau(w, q - 1);
    if (sT) s = 1; else off -= tau(w, p - 1);
    if (e == s) {
      if (!v.has(off)) z.with(0, 0, mk(-1, true));
      z.close();
      return z;
    }
    constrain(z, e, s, v.loC ? GE : GT, v.lo * TICKS - off);
    if (v.hi >= 0)
      constrain(z, e, s, v.hiC ? LE : LT, v.hi * TICKS - off);
    z.close();
    return z;
  }
  Fed split(const T &l, const T &r, bool rIsPlus, int p, bool sT, int q, bool eD) {
    Fed f;
    for (int k = p + 1; k <= q; k++) {
      if (k == q && !eD)
        break;
      const Fed &a = get(l, p, sT, k, false);
      if (a.empty())
        continue;
      const Fed &b = rIsPlus ? getPlus(r, k, false, q, eD) : get(r, k, false, q, eD);
      if (!b.empty())
        join(f, meet(a, b));
    }
    return f;
  }

public:
  TreMatcher(const Word &w, const T &root) : w(w), n(int(w.size())) {
    nodes = number(root);
    memo.assign(size_t(nodes), std::vector<std::optional<Fed>>(size_t(n + 1) * 2 * size_t(n + 1) * 2));
    memoPlus = memo;
  }
  // one or more repetitions of e
  const Fed &getPlus(const T &e, int p, bool sT, int q, bool eD) {
    auto &m = memoPlus[size_t(e->id)][key(p, sT, q, eD)];
    if (m)
      return *m;
    Fed f = get(e, p, sT, q, eD);
    join(f, split(e, e, true, p, sT, q, eD));
    m = std::move(f);
    return *m;
  }
  // non-empty fragments only
  const Fed &get(const T &e, int p, bool sT, int q, bool eD) {
    auto &m = memo[size_t(e->id)][key(p, sT, q, eD)];
    if (m)
      return *m;
    Fed f;
    switch (e->k) {
    case Tre::Atom:
      if ((!eD && q == p + 1 && w[size_t(p)].c == e->c) || (eD && q == p && e->c == '$'))
        f.push_back(Z());
      break;
    case Tre::Eps:
      break;
    case Tre::Cat:
      if (nullable(e->r))
        join(f, get(e->l, p, sT, q, eD));
      if (nullable(e->l))
        join(f, get(e->r, p, sT, q, eD));
      join(f, split(e->l, e->r, false, p, sT, q, eD));
      break;
    case Tre::Or:
      f = get(e->l, p, sT, q, eD);
      join(f, get(e->r, p, sT, q, eD));
      break;
    case Tre::And:
      f = meet(get(e->l, p, sT, q, eD), get(e->r, p, sT, q, eD));
      break;
    case Tre::Plus:
    case Tre::Star:
      f = getPlus(e->l, p, sT, q, eD);
      break;
    case Tre::Within:
      f = meet(get(e->l, p, sT, q, eD), duration(e->iv, p, sT, q, eD));
      break;
    }
    m = std::move(f);
    return *m;
  }
};
inline Matches matchTRE(const T &e, const Word &w) {
  Matches out;
  TreMatcher m(w, e);
  int n = int(w.size());
  for (int i = 0; i <= n; i++)
    for (int j = i; j <= n; j++) {
      Fed f = meet(m.get(e, i, true, j, true), cell(w, i, j));
      if (!f.empty())
        out[{i, j}] = f;
    }
  return out;
}
// membership of a whole word (fragment starting at time 0, no `$` inserted)
inline bool acceptsTRE(const T &e, const Word &w) {
  if (w.empty())
    return nullable(e);
  TreMatcher m(w, e);
  return !m.get(e, 0, false, int(w.size()), false).empty();
}

// ---- comparison of reported zones with the reference ------------------------
// Every reported zone must be non-empty; inside cells with at least one event
// strictly between t and t' the union must equal the reference; in the other
// cells it must be included in it.
struct Cmp {
  std::string error;
  size_t covered = 0;
};
inline Cmp compare(const Fed &emitted, const Matches &ref, const Word &w,
                   const std::function<bool(int, int)> &exactCell, bool insideOnly = true) {
  Cmp r;
  int n = int(w.size());
  std::map<std::pair<int, int>, Fed> byCell;
  for (auto &z : emitted) {
    if (z.empty()) {
      r.error = "a reported zone is empty";
      return r;
    }
    if (z.m[0][1] > mk(0, true)) {
      r.error = "a reported zone has no lower bound t >= 0: " + show(z);
      return r;
    }
    if (insideOnly) {
      Z back = z;
      back.with(2, 1, mk(0, false));
      back.close();
      if (!back.empty()) {
        r.error = "a reported zone has t' < t: " + show(z);
        return r;
      }
    }
    bool any = false;
    for (int i = 0; i <= n; i++) {
      if (i < n && -(z.m[0][1] >> 1) >= tau(w, i))
        continue; // zone starts after the cell
      if (z.m[1][0] < BINF && (z.m[1][0] >> 1) < tau(w, i - 1))
        break;
      for (int j = i; j <= n; j++) {
        if (j < n && -(z.m[0][2] >> 1) > tau(w, j))
          continue;
        if (z.m[2][0] < BINF && (z.m[2][0] >> 1) < tau(w, j - 1))
          break;
        Z x = meet(z, cell(w, i, j));
        if (!x.empty()) {
          addZone(byCell[{i, j}], x);
          any = true;
        }
      }
    }
    if (!any && insideOnly) {
      // only the degenerate t = t' line may lie outside every cell
      Z d = z;
      d.with(1, 2, mk(0, false));
      d.close();
      if (!d.empty()) {
        r.error = "a reported zone lies outside the domain: " + show(z);
        return r;
      }
    }
  }
  static const Fed none;
  auto refOf = [&](std::pair<int, int> k) -> const Fed & {
    auto it = ref.find(k);
    return it == ref.end() ? none : it->second;
  };
  for (auto &kv : byCell) {
    Fed extra = minus(kv.second, refOf(kv.first));
    if (!extra.empty()) {
      r.error = "reported but not a match: " + show(extra[0]) + " (events " +
                std::to_string(kv.first.first) + ".." + std::to_string(kv.first.second - 1) + ")";
      return r;
    }
  }
  for (auto &kv : ref) {
    if (!exactCell(kv.first.first, kv.first.second))
      continue;
    r.covered++;
    auto it = byCell.find(kv.first);
    Fed miss = minus(kv.second, it == byCell.end() ? none : it->second);
    if (!miss.empty()) {
      r.error = "missed match: " + show(miss[0]) + " (events " +
                std::to_string(kv.first.first) + ".." + std::to_string(kv.first.second - 1) + ")";
      return r;
    }
  }
  return r;
}

} // namespace ora
