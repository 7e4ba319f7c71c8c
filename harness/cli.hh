// Running the command-line tools on in-memory files, and reading what they print.
#pragma once
#include <spawn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <regex>
#include "sut_tre.hh"
#include "timed_automaton_parser.hh"

extern char **environ;
namespace cli {
inline std::string tool(const char *name) {
  std::string base = std::string("TOOL_") + name;
#ifdef __SANITIZE_ADDRESS__
  const char *p = getenv((base + "_SAN").c_str());
#else
  const char *p = getenv((base + "_FAST").c_str());
#endif
  if (!p) {
    fprintf(stderr, "the tools are not given\n");
    _exit(99);
  }
  return p;
}
// a file in memory, with a name
class File {
public:
  explicit File(const std::string &content = "") {
    fd = memfd_create("case", 0);
    if (fd < 0 || write(fd, content.data(), content.size()) != ssize_t(content.size())) {
      perror("memfd");
      _exit(98);
    }
    lseek(fd, 0, SEEK_SET);
  }
  File(const File &) = delete;
  ~File() { close(fd); }
  std::string name() const { return "/proc/self/fd/" + std::to_string(fd); }
  std::string read() const {
    std::string r;
    char buf[65536];
    ssize_t n;
    off_t at = 0;
    while ((n = pread(fd, buf, sizeof buf, at)) > 0) {
      r.append(buf, size_t(n));
      at += n;
    }
    return r;
  }
  int fd;
};
struct Run {
  int exit = -1, signal = 0;
  std::string out, err;
};
constexpr rlim_t kCpu = 20; // seconds of CPU time for one run of a tool
inline Run run(const std::string &exe, const std::vector<std::string> &args, const std::string &input,
               rlim_t cpu = kCpu) {
  File in(input), out, err;
  std::vector<char *> av{const_cast<char *>(exe.c_str())};
  for (auto &a : args)
    av.push_back(const_cast<char *>(a.c_str()));
  av.push_back(nullptr);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, in.fd, 0);
  posix_spawn_file_actions_adddup2(&fa, out.fd, 1);
  posix_spawn_file_actions_adddup2(&fa, err.fd, 2);
  struct rlimit was, lim;
  getrlimit(RLIMIT_CPU, &was);
  lim = was;
  lim.rlim_cur = std::min(was.rlim_max, cpu);
  setrlimit(RLIMIT_CPU, &lim);
  pid_t pid;
  if (posix_spawn(&pid, exe.c_str(), &fa, nullptr, av.data(), environ)) {
    perror("posix_spawn");
    _exit(97);
  }
  posix_spawn_file_actions_destroy(&fa);
  setrlimit(RLIMIT_CPU, &was);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  Run r;
  if (WIFSIGNALED(st))
    r.signal = WTERMSIG(st);
  else
    r.exit = WEXITSTATUS(st);
  r.out = out.read();
  r.err = err.read();
  return r;
}
inline std::string show(const std::vector<std::string> &args) {
  std::string o;
  for (auto &a : args)
    o += " '" + a + "'";
  return o;
}

// The documented form of a reported zone: three lines of bounds and a separator.
inline bool parseBound(const std::string &num, const std::string &op, bool neg, ora::B &b, std::string &err) {
  char *end = nullptr;
  double v = strtod(num.c_str(), &end);
  if (!end || *end || std::isnan(v) || (op != "<" && op != "<=")) {
    err = "not a bound: " + num + " " + op;
    return false;
  }
  if (std::isinf(v)) {
    if ((v > 0) == neg) {
      err = "an infinite bound on the wrong side";
      return false;
    }
    b = ora::BINF;
    return true;
  }
  v *= double(ora::TICKS);
  if (std::fabs(v - std::round(v)) > 1e-4 || std::fabs(v) > 1e12) {
    err = "a printed bound is not a sum of input constants: " + num;
    return false;
  }
  b = ora::mk(int64_t(std::round(neg ? -v : v)), op == "<=");
  return true;
}
inline bool parseZones(const std::string &out, ora::Fed &zones, std::string &err) {
  static const std::regex line("^ *(-?[0-9.]+|-?inf) +(<=?) +(t|t'|t' - t) +(<=?) +(-?[0-9.]+|-?inf) *$");
  std::istringstream is(out);
  std::string l;
  static const char *names[3] = {"t", "t'", "t' - t"};
  static const int lo[3][2] = {{0, 1}, {0, 2}, {1, 2}};
  if (!out.empty() && out.back() != '\n') {
    err = "the output does not end with a line break";
    return false;
  }
  while (std::getline(is, l)) {
    ora::Z z;
    for (int k = 0; k < 3; k++) {
      std::smatch m;
      if ((k && !std::getline(is, l)) || !std::regex_match(l, m, line) || m[3] != names[k]) {
        err = std::string("not the line of ") + names[k] + ": " + l;
        return false;
      }
      if (!parseBound(m[1], m[2], true, z.m[lo[k][0]][lo[k][1]], err) ||
          !parseBound(m[5], m[4], false, z.m[lo[k][1]][lo[k][0]], err))
        return false;
    }
    if (!std::getline(is, l) || l.size() < 8 || l.find_first_not_of('=') != std::string::npos) {
      err = "not a separator: " + l;
      return false;
    }
    z.close();
    zones.push_back(z);
  }
  return true;
}

// The log as the tools read it.
inline std::string binary(const ora::Word &w) {
  std::string o;
  for (auto &e : w) {
    double d = double(e.t) / double(ora::TICKS);
    o += e.c;
    o.append(reinterpret_cast<const char *>(&d), sizeof d);
  }
  return o;
}
inline std::string ascii(pbt::Src &s, const ora::Word &w) {
  std::string o;
  for (auto &e : w) {
    char num[64];
    snprintf(num, sizeof num, s.chance(1, 6) ? "%.15e" : "%.3f", double(e.t) / double(ora::TICKS));
    o += s.chance(1, 8) ? s.elem(std::vector<std::string>{" ", "\t", "\n"}) : "";
    o += std::string(1, e.c) + s.elem(std::vector<std::string>{" ", "\t", "  "}) + num +
         (s.chance(1, 8) ? s.elem(std::vector<std::string>{" \n", "\n\n", " ", "\r\n"}) : "\n");
  }
  return o;
}
} // namespace cli
