#pragma once
// Small runtime for the monitors: deterministic per-case random numbers, violation
// reporting by key, coverage counters.  A harness is a program that runs the cases
// [begin, end); case i of seed s is always the same whatever the sharding.
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh
{

inline uint64_t
mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

inline uint64_t
hashStr(std::string const & s)
{
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char const c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return mix(h);
}

struct Rng {
  uint64_t s = 0;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t
  next()
  {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // [0,1)
  double
  u()
  {
    return static_cast<double>(next() >> 11) * 0x1.0p-53;
  }
  double
  uni(double a, double b)
  {
    return a + (b - a) * u();
  }
  // inclusive
  int
  range(int a, int b)
  {
    return static_cast<int>(a + static_cast<int64_t>(next() % static_cast<uint64_t>(int64_t(b) - a + 1)));
  }
  bool
  chance(double p)
  {
    return u() < p;
  }
  // log-uniform magnitude in [a,b]
  double
  logu(double a, double b)
  {
    return std::exp(uni(std::log(a), std::log(b)));
  }
  double
  sign()
  {
    return (next() & 1U) != 0 ? 1.0 : -1.0;
  }
  template <class T>
  T const &
  pick(std::vector<T> const & v)
  {
    return v[next() % v.size()];
  }
  template <class V>
  void
  shuffle(V & v)
  {
    for (size_t i = static_cast<size_t>(v.size()); i > 1; --i) {
      size_t const j = next() % i;
      std::swap(v[i - 1], v[j]);
    }
  }
};

struct Ctx {
  FILE * out = nullptr;
  uint64_t seed = 1;
  uint64_t begin = 0;
  uint64_t end = 0;
  uint64_t cur = 0;
  bool thorough = false;
  std::string scratch;
  std::map<std::string, long> counts;
  std::map<std::string, int> fails;
  std::unordered_set<uint64_t> nontriv;
  std::vector<std::string> samples;
  uint64_t * progress = nullptr; // mmap'ed: [0] current case, [1] finished flag, [2] request to stop
};

inline Ctx &
ctx()
{
  static Ctx c;
  return c;
}

inline void
fail(std::string const & key, char const * fmt, ...)
{
  Ctx & c = ctx();
  int & n = c.fails[key];
  ++n;
  if (n > 3) {
    return;
  }
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  for (char * p = buf; *p != 0; ++p) {
    if (*p == '\n') {
      *p = ' ';
    }
  }
  fprintf(c.out, "FAIL\t%s\t%lu\t%s\n", key.c_str(), static_cast<unsigned long>(c.cur), buf);
  fflush(c.out);
}

#define VH(cond, key, ...)                                                               \
  do {                                                                                   \
    if (!(cond)) {                                                                       \
      vh::fail(key, __VA_ARGS__);                                                        \
    }                                                                                    \
  } while (0)

inline void
count(std::string const & name, long n = 1)
{
  ctx().counts[name] += n;
}

// Registers a non-trivial case by a hash of its content; distinct ones are counted.
inline void
nontrivial(uint64_t h)
{
  ctx().nontriv.insert(h);
}

inline void
sample(std::string s)
{
  if (ctx().samples.size() < 3) {
    for (char & ch : s) {
      if (ch == '\n' || ch == '\t') {
        ch = ' ';
      }
    }
    ctx().samples.push_back("case " + std::to_string(ctx().cur) + ": " + s.substr(0, 600));
  }
}

inline std::string
fmt(char const * f, ...)
{
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof(buf), f, ap);
  va_end(ap);
  return buf;
}

// Runs fn in a forked child (stdout/stderr kept in a file).  Returns the wait status
// mapped to: 0 = returned normally and fn gave true, 1 = fn gave false, 2 = died/exited.
inline int
isolated(std::function<bool()> const & fn, std::string * output = nullptr, int secs = 20)
{
  fflush(nullptr);
  std::string const path = ctx().scratch + "/iso.txt";
  pid_t const pid = fork();
  if (pid == 0) {
    int const fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    alarm(static_cast<unsigned>(secs));
    bool const ok = fn();
    fflush(nullptr);
    _exit(ok ? 77 : 78);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (output != nullptr) {
    output->clear();
    FILE * f = fopen(path.c_str(), "r");
    if (f != nullptr) {
      char b[4096];
      size_t n = 0;
      while ((n = fread(b, 1, sizeof b, f)) > 0) {
        output->append(b, n);
      }
      fclose(f);
    }
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
    return 0;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78) {
    return 1;
  }
  return 2;
}

// While alive, everything the process prints to stdout and stderr goes to scratch files.
// If the process dies meanwhile, what was caught is passed on to the real streams.
extern "C" void __sanitizer_set_death_callback(void (*cb)()) __attribute__((weak));
struct Capture {
  int saved[2] = {-1, -1};
  int fd[2] = {-1, -1};
  std::string out, err;
  static Capture *& active()
  {
    static Capture * c = nullptr;
    return c;
  }
  static void passOn()
  {
    Capture * c = active();
    if (c != nullptr) {
      active() = nullptr;
      for (int i = 0; i < 2; ++i) {
        char b[4096];
        lseek(c->fd[i], 0, SEEK_SET);
        for (ssize_t n = 0; (n = read(c->fd[i], b, sizeof b)) > 0;) {
          if (write(c->saved[i], b, (size_t)n) < 0) {
            break;
          }
        }
        dup2(c->saved[i], i + 1);
      }
    }
  }
  Capture()
  {
    static bool const once = [] {
      atexit([] {
        fflush(nullptr);
        passOn();
      });
      if (__sanitizer_set_death_callback != nullptr) {
        __sanitizer_set_death_callback([] { passOn(); });
      }
      return true;
    }();
    (void)once;
    fflush(nullptr);
    static int const files[2] = {memfd_create("out", 0), memfd_create("err", 0)};
    for (int i = 0; i < 2; ++i) {
      fd[i] = files[i];
      if (ftruncate(fd[i], 0) != 0) {
        abort();
      }
      lseek(fd[i], 0, SEEK_SET);
      saved[i] = dup(i + 1);
      dup2(fd[i], i + 1);
    }
    active() = this;
  }
  void stop()
  {
    if (active() != this) {
      return;
    }
    fflush(nullptr);
    active() = nullptr;
    for (int i = 0; i < 2; ++i) {
      dup2(saved[i], i + 1);
      close(saved[i]);
      std::string & s = i == 0 ? out : err;
      s.assign((size_t)lseek(fd[i], 0, SEEK_END), 0);
      if (pread(fd[i], s.data(), s.size(), 0) != (ssize_t)s.size()) {
        abort();
      }
    }
  }
  ~Capture() { stop(); }
};

template <class F>
int
run(int argc, char ** argv, char const * name, F && f)
{
  Ctx & c = ctx();
  std::string prog;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string const a = argv[i];
    std::string const v = argv[i + 1];
    if (a == "--seed") {
      c.seed = strtoull(v.c_str(), nullptr, 10);
    } else if (a == "--begin") {
      c.begin = strtoull(v.c_str(), nullptr, 10);
    } else if (a == "--end") {
      c.end = strtoull(v.c_str(), nullptr, 10);
    } else if (a == "--tier") {
      c.thorough = v == "thorough";
    } else if (a == "--out") {
      c.out = fopen(v.c_str(), "w");
    } else if (a == "--progress") {
      prog = v;
    } else if (a == "--scratch") {
      c.scratch = v;
    }
  }
  if (c.out == nullptr) {
    c.out = stderr;
  }
  static uint64_t dummy[3];
  c.progress = dummy;
  if (!prog.empty()) {
    int const fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 24) != 0) {
      return 3;
    }
    c.progress = static_cast<uint64_t *>(
        mmap(nullptr, 24, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }
  uint64_t const base = mix(c.seed * 0x51ed2701ULL + hashStr(name));
  uint64_t done = 0;
  for (uint64_t i = c.begin; i < c.end && *static_cast<uint64_t volatile *>(c.progress + 2) == 0; ++i, ++done) {
    c.cur = i;
    c.progress[0] = i;
    Rng rng(mix(base ^ mix(i)));
    f(rng, i);
  }
  for (auto const & [k, v] : c.counts) {
    fprintf(c.out, "COUNT\t%s\t%ld\n", k.c_str(), v);
  }
  for (auto const & [k, v] : c.fails) {
    fprintf(c.out, "NFAIL\t%s\t%d\n", k.c_str(), v);
  }
  for (auto const h : c.nontriv) {
    fprintf(c.out, "NT\t%lx\n", static_cast<unsigned long>(h));
  }
  for (auto const & s : c.samples) {
    fprintf(c.out, "SAMPLE\t%s\n", s.c_str());
  }
  fprintf(c.out, "DONE\t%lu\n", static_cast<unsigned long>(done));
  fflush(c.out);
  c.progress[1] = 1;
  return 0;
}

// Relative/absolute closeness.
inline bool
near(double a, double b, double rel, double abs = 0)
{
  double const d = std::fabs(a - b);
  return d <= abs + rel * std::fmax(std::fabs(a), std::fabs(b));
}

} // namespace vh
