// Property-based testing engine: a case is a finite sequence of choices
// (32-bit draws).  Every random decision of a generator goes through Src, so a
// case can be replayed from its choices, shrunk by editing them, and decoded
// from a fuzzer's bytes.  Nothing here reads the clock to decide a verdict.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

// The choices of the case being evaluated are mirrored into a shared file
// mapping, so that the driver can recover them when the process dies.
inline constexpr size_t kShmWords = 1 << 16;
inline uint32_t *g_shm = nullptr;

// The source of choices.
class Src {
public:
  std::vector<uint32_t> choices; // recorded or replayed
  size_t pos = 0;
  bool replaying = false;
  uint64_t state = 0;
  explicit Src(uint64_t seed) : state(seed) {}
  explicit Src(std::vector<uint32_t> c)
      : choices(std::move(c)), replaying(true) {}

  // uniform in [0, n)
  uint32_t below(uint32_t n) {
    if (n <= 1)
      return 0;
    uint32_t v;
    if (replaying) {
      v = pos < choices.size() ? choices[pos] : 0;
      pos++;
      if (v >= n)
        v %= n;
      if (pos <= choices.size())
        choices[pos - 1] = v;
    } else {
      v = uint32_t((splitmix(state) >> 16) % n);
      choices.push_back(v);
      if (g_shm && pos + 1 < kShmWords) {
        g_shm[pos + 1] = v;
        g_shm[0] = uint32_t(pos + 1);
      }
      pos++;
    }
    return v;
  }
  // inclusive
  int range(int lo, int hi) { return lo + int(below(uint32_t(hi - lo + 1))); }
  // true with probability p/q; false is the simplest value
  bool chance(uint32_t p, uint32_t q) {
    uint32_t v = below(q);
    return v >= q - p;
  }
  // weighted choice; index 0 is the simplest
  int pick(std::initializer_list<int> weights) {
    int total = 0;
    for (int w : weights)
      total += w;
    int v = int(below(uint32_t(total))), k = 0;
    for (int w : weights) {
      if (v < w)
        return k;
      v -= w;
      k++;
    }
    return 0;
  }
  template <class C> const typename C::value_type &elem(const C &c) {
    return c[below(uint32_t(c.size()))];
  }
};

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Discard {};

struct Stats {
  uint64_t evaluations = 0, nontrivial = 0, discarded = 0, unstable = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> distinct; // hashes of non-trivial cases
  std::vector<std::string> samples;
};

// A text stream of our own: the code under test declares a global operator<<
// for std::string that prints character codes.
// Mirrored into shared memory in a forked evaluation, so that a crashing case
// can be shown.
inline constexpr size_t kMirror = 1 << 16;
inline char *g_mirror = nullptr;
struct Desc {
  std::string s;
  Desc &put(const std::string &x) {
    if (g_mirror && s.size() + x.size() + 1 < kMirror)
      memcpy(g_mirror + s.size(), x.c_str(), x.size() + 1);
    s += x;
    return *this;
  }
  Desc &operator<<(const std::string &x) { return put(x); }
  Desc &operator<<(const char *x) { return put(x); }
  Desc &operator<<(char x) { return put(std::string(1, x)); }
  Desc &operator<<(bool x) { return put(x ? "1" : "0"); }
  Desc &operator<<(int x) { return put(std::to_string(x)); }
  Desc &operator<<(unsigned x) { return put(std::to_string(x)); }
  Desc &operator<<(long x) { return put(std::to_string(x)); }
  Desc &operator<<(unsigned long x) { return put(std::to_string(x)); }
  Desc &operator<<(double x) { char b[40]; snprintf(b, sizeof b, "%.10g", x); return put(b); }
  const std::string &str() const { return s; }
};

// What one evaluation of the property reports.
struct Ctx {
  Desc desc; // the case, written out
  bool nontrivial = false;
  std::set<std::string> labels;
  bool verbose = false;
  void label(const std::string &l) { labels.insert(l); }
  [[noreturn]] void fail(const std::string &m) { throw Failure(m); }
  void check(bool b, const std::string &m) {
    if (!b)
      throw Failure(m);
  }
};

using Property = std::function<void(Src &, Ctx &)>;

inline uint64_t fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return h;
}

inline std::string jsonEscape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += char(c);
  }
  return o;
}

// exit() called by the code under test (e.g. "empty pattern") is caught through
// -Wl,--wrap=exit and longjmp (exit is declared nothrow, so no exception).
inline jmp_buf g_exitJmp;
inline volatile bool g_catchExit = false;
inline volatile int g_exitStatus = 0;

// A deterministic work budget.  Building the skip tables is exponential in the
// number of clocks; while a budget is armed, operator new counts allocations and
// throws when the budget is used up (no clock is involved).
struct OverBudget : std::bad_alloc {};
inline bool g_budgetOn = false;
inline uint64_t g_allocs = 0, g_bigAllocs = 0, g_maxAllocs = 0, g_maxBig = 0;
template <class F> void withBudget(uint64_t big, uint64_t all, F f) {
  struct Off {
    ~Off() { g_budgetOn = false; }
  } off;
  g_allocs = g_bigAllocs = 0;
  g_maxAllocs = all;
  g_maxBig = big;
  g_budgetOn = true;
  f();
}

// returns -1 when f returned normally, the exit status otherwise
template <class F> int callCatchingExit(F f) {
  if (setjmp(g_exitJmp) == 0) {
    g_catchExit = true;
    try {
      f();
    } catch (...) {
      g_catchExit = false;
      throw;
    }
    g_catchExit = false;
    return -1;
  }
  g_catchExit = false;
  return g_exitStatus;
}

void startArena(uint64_t seed);
void g_arenaOff();

struct Outcome {
  enum K { Pass, Fail, Discarded, Crash, Timeout } kind = Pass;
  std::string msg, desc;
};

inline Outcome evalHere(const Property &p, Src &src, Ctx &ctx) {
  Outcome o;
  try {
    p(src, ctx);
  } catch (const Failure &f) {
    o.kind = Outcome::Fail;
    o.msg = f.what();
  } catch (const Discard &) {
    o.kind = Outcome::Discarded;
  } catch (const OverBudget &) {
    g_catchExit = false;
    o.kind = Outcome::Discarded;
  } catch (const std::exception &e) {
    o.kind = Outcome::Fail;
    o.msg = std::string("unexpected exception: ") + e.what();
  } catch (const char *e) {
    o.kind = Outcome::Fail;
    o.msg = std::string("unexpected exception: ") + e;
  }
  o.desc = ctx.desc.str();
  return o;
}

// One process per case (with the arena), or one per batch of cases.
inline bool g_isolate = true;
// CPU-time limit for one case; generous (cases take milliseconds).
inline int g_cpuLimit = 60;

inline Outcome evalForked(const Property &p, const std::vector<uint32_t> &ch,
                          std::vector<uint32_t> *normalised = nullptr,
                          int cpu = 0) {
  int fds[2];
  if (pipe(fds))
    abort();
  fflush(nullptr);
  static char *mirror = static_cast<char *>(
      mmap(nullptr, kMirror, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  mirror[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    g_mirror = mirror;
    g_shm = nullptr;
    close(fds[0]);
    struct rlimit rl {
      rlim_t(cpu ? cpu : g_cpuLimit), rlim_t((cpu ? cpu : g_cpuLimit) + 5)
    };
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit cl {0, 0};
    setrlimit(RLIMIT_CORE, &cl);
    Src s(ch);
    if (g_isolate)
      startArena(s.below(1024));
    Ctx c;
    Outcome o = evalHere(p, s, c);
    std::string out(1, char('0' + int(o.kind)));
    uint32_t used = uint32_t(std::min(s.pos, s.choices.size()));
    out += std::to_string(used) + ":";
    for (uint32_t i = 0; i < used; i++)
      out += std::to_string(s.choices[i]) + ",";
    out += "\n" + o.msg + "\x01" + o.desc;
    size_t off2 = 0;
    while (off2 < out.size()) {
      ssize_t w = write(fds[1], out.data() + off2, out.size() - off2);
      if (w <= 0)
        break;
      off2 += size_t(w);
    }
    _exit(0);
  }
  close(fds[1]);
  std::string in;
  char buf[4096];
  ssize_t r;
  while ((r = read(fds[0], buf, sizeof buf)) > 0)
    in.append(buf, size_t(r));
  close(fds[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !in.empty()) {
    o.kind = Outcome::K(in[0] - '0');
    size_t nl = in.find('\n');
    if (normalised) {
      normalised->clear();
      size_t c = in.find(':');
      std::stringstream ss(in.substr(c + 1, nl - c - 1));
      std::string tok;
      while (std::getline(ss, tok, ','))
        normalised->push_back(uint32_t(strtoul(tok.c_str(), nullptr, 10)));
    }
    size_t sep = in.find('\x01', nl);
    o.msg = in.substr(nl + 1, sep - nl - 1);
    o.desc = in.substr(sep + 1);
    return o;
  }
  if (normalised)
    *normalised = ch;
  o.desc = mirror;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
    o.kind = Outcome::Timeout;
    o.msg = "did not terminate within the CPU limit";
  } else {
    o.kind = Outcome::Crash;
    o.msg = WIFSIGNALED(st)
                ? "crashed with signal " + std::to_string(WTERMSIG(st))
                : "died with exit status " + std::to_string(WEXITSTATUS(st)) +
                      " (sanitizer report or abort)";
  }
  return o;
}

inline bool bad(const Outcome &o) {
  return o.kind == Outcome::Fail || o.kind == Outcome::Crash ||
         o.kind == Outcome::Timeout;
}

// Shrink: delete blocks, zero blocks, lower single choices.
inline std::vector<uint32_t> shrink(const Property &p,
                                    std::vector<uint32_t> best, bool forked,
                                    Outcome &bestOut, int budget = 3000) {
  int cpu = bestOut.kind == Outcome::Timeout ? 10 : 0;
  if (bestOut.kind == Outcome::Timeout)
    budget = 60;
  int used = 0;
  auto lexLess = [](const std::vector<uint32_t> &a,
                    const std::vector<uint32_t> &b) {
    if (a.size() != b.size())
      return a.size() < b.size();
    return a < b;
  };
  auto tryIt = [&](const std::vector<uint32_t> &c) {
    if (used >= budget)
      return false;
    used++;
    Outcome o;
    std::vector<uint32_t> norm;
    if (forked)
      o = evalForked(p, c, &norm, cpu);
    else {
      Src s(c);
      Ctx ctx;
      o = evalHere(p, s, ctx);
      norm.assign(s.choices.begin(),
                  s.choices.begin() + long(std::min(s.pos, s.choices.size())));
    }
    if (bad(o) && (o.kind == bestOut.kind)) {
      while (!norm.empty() && norm.back() == 0)
        norm.pop_back();
      if (lexLess(norm, best)) {
        best = norm;
        bestOut = o;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && used < budget) {
    progress = false;
    for (size_t len : {32, 16, 8, 4, 2, 1}) {
      for (size_t i = 0; i + len <= best.size() && used < budget;) {
        auto c = best;
        c.erase(c.begin() + long(i), c.begin() + long(i + len));
        if (tryIt(c))
          progress = true;
        else
          i++;
      }
    }
    // delete a choice and decrement an earlier one (list length prefixes)
    for (size_t i = 0; i < best.size() && used < budget; i++) {
      if (best[i] == 0)
        continue;
      for (size_t len : {1, 2, 3, 4, 5, 6}) {
        for (size_t d = 1; d <= 8 && i + d + len <= best.size(); d++) {
          auto c = best;
          c[i]--;
          c.erase(c.begin() + long(i + d), c.begin() + long(i + d + len));
          if (tryIt(c)) {
            progress = true;
            break;
          }
        }
        if (i >= best.size() || best[i] == 0)
          break;
      }
    }
    for (size_t len : {8, 4, 2}) {
      for (size_t i = 0; i + len <= best.size() && used < budget; i += len) {
        auto c = best;
        std::fill(c.begin() + long(i), c.begin() + long(i + len), 0);
        if (c != best && tryIt(c))
          progress = true;
      }
    }
    for (size_t i = 0; i < best.size() && used < budget; i++) {
      if (best[i] == 0)
        continue;
      auto c = best;
      c[i] = 0;
      if (tryIt(c)) {
        progress = true;
        continue;
      }
      uint32_t lo = 0, hi = i < best.size() ? best[i] : 0; // lo fails
      while (hi - lo > 1 && used < budget && i < best.size()) {
        uint32_t mid = lo + (hi - lo) / 2;
        c = best;
        c[i] = mid;
        if (tryIt(c)) {
          progress = true;
          hi = mid;
        } else
          lo = mid;
      }
    }
  }
  return best;
}

struct Config {
  std::string mode = "run";
  uint64_t seed = 1;
  int shard = 0;
  uint64_t cases = 1000, start = 0;
  double softSeconds = 1e9; // stop early; never a verdict
  std::string out, hashes, replay, current;
};

inline uint64_t caseSeed(const Config &c, uint64_t idx) {
  uint64_t s = c.seed * 0x9e3779b97f4a7c15ULL +
               uint64_t(c.shard) * 0xd1342543de82ef95ULL +
               idx * 0x2545F4914F6CDD1DULL + 12345;
  splitmix(s);
  return splitmix(s);
}

inline std::vector<uint32_t> readReplay(const std::string &f) {
  std::ifstream in(f);
  std::string line;
  std::vector<uint32_t> r;
  while (std::getline(in, line))
    if (line.rfind("choices:", 0) == 0) {
      std::stringstream ss(line.substr(8));
      uint32_t v;
      while (ss >> v)
        r.push_back(v);
      break;
    }
  return r;
}

inline void writeReplay(const std::string &f, const std::vector<uint32_t> &ch,
                        const Outcome &o) {
  std::ofstream out(f);
  out << "choices:";
  for (auto v : ch)
    out << ' ' << v;
  out << "\nmessage: " << o.msg << "\ncase:\n" << o.desc << "\n";
}

inline double cpuNow() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

inline void writeStats(const Config &cfg, const Stats &st, bool softStop) {
  std::ofstream o(cfg.out);
  o << "{\"evaluations\":" << st.evaluations
    << ",\"nontrivial\":" << st.nontrivial << ",\"discarded\":" << st.discarded
    << ",\"unstable\":" << st.unstable << ",\"soft_stop\":" << (softStop ? "true" : "false") << ",\"labels\":{";
  bool first = true;
  for (auto &l : st.labels) {
    o << (first ? "" : ",") << '"' << jsonEscape(l.first) << "\":" << l.second;
    first = false;
  }
  o << "},\"samples\":[";
  first = true;
  for (auto &s : st.samples) {
    o << (first ? "" : ",") << '"' << s << '"';
    first = false;
  }
  o << "]}\n";
  std::ofstream h(cfg.hashes);
  for (auto v : st.distinct)
    h << std::hex << v << '\n';
}

// Evaluates cases [from, to) in one child process and merges what it reports.
// A case that fails, crashes or exceeds the CPU limit ends the batch.
inline void runBatch(const Property &p, const Config &cfg, Stats &st, uint64_t from,
                     uint64_t to, std::vector<uint32_t> &failing) {
  int fds[2];
  if (pipe(fds))
    abort();
  g_shm[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    struct rlimit rl {rlim_t(g_cpuLimit), rlim_t(g_cpuLimit + 5)}, cl {0, 0};
    setrlimit(RLIMIT_CPU, &rl);
    setrlimit(RLIMIT_CORE, &cl);
    FILE *out = fdopen(fds[1], "w");
    for (uint64_t k = from; k < to; k++) {
      g_shm[0] = 0;
      Src src(caseSeed(cfg, cfg.start + k));
      if (g_isolate)
        startArena(src.below(1024));
      Ctx ctx;
      Outcome o = evalHere(p, src, ctx);
      g_arenaOff();
      if (bad(o)) {
        fputs("F\n", out);
        fflush(out);
        _exit(0); // the choices are in the mapping
      }
      if (o.kind == Outcome::Discarded) {
        fputs("D\n", out);
        continue;
      }
      bool sample = ctx.nontrivial && (k % 97 == 0 || st.samples.size() < 2);
      fprintf(out, "%c %llx %zu\n", ctx.nontrivial ? 'N' : 'T',
              (unsigned long long)fnv(o.desc), ctx.labels.size());
      for (auto &l : ctx.labels)
        fprintf(out, "%s\n", l.c_str());
      if (sample)
        fprintf(out, "S %s\n", jsonEscape(o.desc).c_str());
    }
    fputs("E\n", out);
    fflush(out);
    _exit(0);
  }
  close(fds[1]);
  FILE *in = fdopen(fds[0], "r");
  char *line = nullptr;
  size_t cap = 0;
  ssize_t len;
  bool ended = false;
  auto chomp = [&] {
    while (len > 0 && line[len - 1] == '\n')
      line[--len] = 0;
  };
  while ((len = getline(&line, &cap, in)) > 0) {
    chomp();
    if (line[0] == 'E')
      ended = true;
    else if (line[0] == 'F')
      st.evaluations++;
    else if (line[0] == 'D')
      st.discarded++;
    else if (line[0] == 'S') {
      if (st.samples.size() < 6)
        st.samples.push_back(line + 2);
    } else {
      unsigned long long h = 0;
      size_t labels = 0;
      char kind = line[0];
      sscanf(line + 2, "%llx %zu", &h, &labels);
      st.evaluations++;
      if (kind == 'N') {
        st.nontrivial++;
        if (st.distinct.size() < 2000000)
          st.distinct.insert(h);
      }
      while (labels-- && (len = getline(&line, &cap, in)) > 0) {
        chomp();
        st.labels[line]++;
      }
    }
  }
  free(line);
  fclose(in);
  int status = 0;
  waitpid(pid, &status, 0);
  if (!ended) {
    uint32_t n = std::min<uint32_t>(g_shm[0], kShmWords - 2);
    failing.assign(g_shm + 1, g_shm + 1 + n);
    if (failing.empty())
      failing.push_back(0);
  }
}

// exit status: 0 all cases passed; 3 a case failed (replay written).
// batch > 1: cheap cases without shared state, evaluated many per process.
inline int realMain(int argc, char **argv, const Property &p, uint64_t batch = 1) {
  g_isolate = batch == 1;
  Config cfg;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--mode") cfg.mode = v;
    else if (k == "--seed") cfg.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--shard") cfg.shard = atoi(v.c_str());
    else if (k == "--cases") cfg.cases = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--start") cfg.start = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--soft") cfg.softSeconds = atof(v.c_str());
    else if (k == "--out") cfg.out = v;
    else if (k == "--hashes") cfg.hashes = v;
    else if (k == "--replay") cfg.replay = v;
    else if (k == "--current") cfg.current = v;
    else if (k == "--cpu") g_cpuLimit = atoi(v.c_str());
  }
  signal(SIGPIPE, SIG_IGN);
  if (cfg.mode == "replay") { // 3: the case fails, 0: it passes
    Outcome o = evalForked(p, readReplay(cfg.replay));
    std::cout << o.msg << "\n" << o.desc << "\n";
    return bad(o) ? 3 : o.kind == Outcome::Discarded ? 4 : 0;
  }
  if (cfg.mode == "shrink") { // --replay IN --out OUT
    auto ch = readReplay(cfg.replay);
    Outcome o = evalForked(p, ch);
    if (!bad(o))
      return 0;
    ch = shrink(p, ch, true, o);
    writeReplay(cfg.out, ch, o);
    return 3;
  }
  g_shm = static_cast<uint32_t *>(mmap(nullptr, kShmWords * 4, PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  Stats st;
  const double t0 = cpuNow();
  bool soft = false;
  for (uint64_t k = 0; k < cfg.cases;) {
    if (cpuNow() - t0 > cfg.softSeconds) {
      soft = true;
      break;
    }
    uint64_t upto = std::min(cfg.cases, k + batch);
    std::vector<uint32_t> failing;
    runBatch(p, cfg, st, k, upto, failing);
    k = upto;
    if (!failing.empty()) {
      // the verdict is the isolated evaluation of the failing case
      Outcome o = evalForked(p, failing);
      if (bad(o)) {
        writeReplay(cfg.replay, failing, o);
        writeStats(cfg, st, false);
        return 3;
      }
      st.unstable++;
    }
  }
  writeStats(cfg, st, soft);
  return 0;
}

} // namespace pbt

// Addresses decide the order of pointer-keyed containers and of sorted pointers.
// In an isolated evaluation, operator new therefore serves objects from an arena
// at a fixed address, in an order permuted by the case's own seed: the same case
// sees the same addresses in every process, and different cases see different
// orders.  (Not in sanitizer builds, where the sanitizer's allocator is wanted.)
namespace pbt {
struct Arena {
  static constexpr size_t kBytes = size_t(2) << 30, kClasses = 84, kFree = 1 << 15;
  char *base = nullptr, *top = nullptr, *end = nullptr;
  bool on = false;
  size_t live = 0; // bytes in use
  uint64_t rng = 0;
  void **free_[kClasses] = {};
  size_t n[kClasses] = {};
  static size_t classOf(size_t s) {
    if (s <= 1024)
      return s ? (s - 1) / 16 : 0;
    size_t c = 64, b = 2048;
    while (b < s)
      b <<= 1, c++;
    return c;
  }
  static size_t sizeOf(size_t c) { return c < 64 ? (c + 1) * 16 : size_t(2048) << (c - 64); }
  void start(uint64_t seed) {
    void *p = mmap(reinterpret_cast<void *>(0x100000000000), kBytes, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED)
      return;
    base = top = static_cast<char *>(p);
    end = base + kBytes;
    rng = seed;
    on = true;
  }
  void *get(size_t s) {
    size_t c = classOf(s);
    if (c >= kClasses)
      return nullptr;
    if (!free_[c])
      free_[c] = static_cast<void **>(malloc(kFree * sizeof(void *)));
    if (n[c] == 0) {
      size_t slots = c < 64 ? 24 : c < 70 ? 4 : 1, sz = sizeOf(c);
      if (size_t(end - top) < slots * sz)
        return nullptr;
      for (size_t i = 0; i < slots; i++, top += sz)
        free_[c][n[c]++] = top;
    }
    size_t i = size_t(splitmix(rng) >> 16) % n[c];
    void *p = free_[c][i];
    free_[c][i] = free_[c][--n[c]];
    *static_cast<size_t *>(p) = 0;
    return p;
  }
  bool owns(void *p) const { return p >= base && p < end && base; }
  void put(void *p, size_t s) {
    size_t c = classOf(s);
    if (n[c] < kFree)
      free_[c][n[c]++] = p;
  }
};
inline Arena g_arena;
} // namespace pbt

#if defined(__SANITIZE_ADDRESS__)
#define PBT_SANITIZED 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_SANITIZED 1
#endif
#endif

inline void pbt::startArena(uint64_t seed) {
#ifndef PBT_SANITIZED
  g_arena.start(seed);
#else
  (void)seed;
#endif
}

inline void pbt::g_arenaOff() { g_arena.on = false; }

inline void *countedNew(std::size_t n) {
  if (pbt::g_budgetOn) {
    if (++pbt::g_allocs > pbt::g_maxAllocs ||
        (n >= 2000 && ++pbt::g_bigAllocs > pbt::g_maxBig)) {
      pbt::g_budgetOn = false;
      throw pbt::OverBudget();
    }
  }
  // the size is kept in front of the object
  if (pbt::g_arena.on) {
    void *q = pbt::g_arena.get(n + 16);
    if (!q) // out of memory: the code under test runs away
      throw std::bad_alloc();
    *static_cast<size_t *>(q) = n + 16;
    pbt::g_arena.live += n + 16;
    return static_cast<char *>(q) + 16;
  }
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
inline void countedDelete(void *p) {
  if (pbt::g_arena.owns(p)) {
    void *q = static_cast<char *>(p) - 16;
    pbt::g_arena.live -= *static_cast<size_t *>(q);
    pbt::g_arena.put(q, *static_cast<size_t *>(q));
  } else
    free(p);
}
void *operator new(std::size_t n) { return countedNew(n); }
void *operator new[](std::size_t n) { return countedNew(n); }
void operator delete(void *p) noexcept { countedDelete(p); }
void operator delete[](void *p) noexcept { countedDelete(p); }
void operator delete(void *p, std::size_t) noexcept { countedDelete(p); }
void operator delete[](void *p, std::size_t) noexcept { countedDelete(p); }

// Linked with -Wl,--wrap=exit.
extern "C" [[noreturn]] void __real_exit(int);
extern "C" [[noreturn]] void __wrap_exit(int status) {
  if (pbt::g_catchExit) {
    pbt::g_budgetOn = false;
    pbt::g_exitStatus = status;
    longjmp(pbt::g_exitJmp, 1);
  }
  __real_exit(status);
}
