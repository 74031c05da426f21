// C31: sequences of log messages against the text they must produce.
#include "vh.hpp"

#include <um2/common/logger.hpp>
#include <um2/config.hpp>
#include <um2/stdlib/string.hpp>
#include <um2/stdlib/string_view.hpp>

#include <cinttypes>
#include <limits>
#include <memory>

namespace lg = um2::logger;

static std::string
randText(vh::Rng & rng, size_t n)
{
  std::string s;
  bool const odd = rng.chance(0.2);
  while (s.size() < n) {
    if (odd && rng.chance(0.1)) {
      s += rng.pick(std::vector<std::string>{"%s", "%n", "%d", "%", "\\", "\t", "\xc3\xa9", "\"", "[0m"});
    } else {
      s += static_cast<char>(rng.range(32, 126));
    }
  }
  s.resize(n);
  return s;
}

static size_t
randLength(vh::Rng & rng)
{
  switch (rng.range(0, 9)) {
  case 0:
    return 0;
  case 1:
    return (size_t)rng.range(180, 300);
  case 2:
    return rng.chance(0.3) ? (size_t)rng.range(300, 20000) : (size_t)rng.range(60, 120);
  default:
    return (size_t)rng.range(1, 24);
  }
}

template <class T>
static T
randInt(vh::Rng & rng)
{
  switch (rng.range(0, 3)) {
  case 0:
    return std::numeric_limits<T>::max();
  case 1:
    return std::numeric_limits<T>::min();
  case 2:
    return static_cast<T>(rng.next() % 100);
  default:
    return static_cast<T>(rng.next());
  }
}

// a part of a message: the value and the text it stands for
template <class T>
struct Part;
template <>
struct Part<char const *> {
  std::unique_ptr<char[]> s; // exactly sized, so that reading past the end is noticed
  std::string text;
  explicit Part(vh::Rng & rng) : text(randText(rng, randLength(rng)))
  {
    s.reset(new char[text.size() + 1]);
    memcpy(s.get(), text.c_str(), text.size() + 1);
    v = s.get();
  }
  char const * v;
};
template <>
struct Part<um2::StringView> {
  std::unique_ptr<char[]> s;
  std::string text;
  explicit Part(vh::Rng & rng) : text(randText(rng, randLength(rng))), s2(new char[text.size() + 1])
  {
    memcpy(s2.get(), text.data(), text.size()); // not terminated
    v = um2::StringView(s2.get(), text.size());
  }
  std::unique_ptr<char[]> s2;
  um2::StringView v{""};
};
template <>
struct Part<um2::String> {
  std::string text;
  um2::String v;
  explicit Part(vh::Rng & rng) : text(randText(rng, randLength(rng))), v(text.c_str()) {}
};
template <>
struct Part<char> {
  char v;
  std::string text;
  explicit Part(vh::Rng & rng) : v(static_cast<char>(rng.range(33, 126))), text(1, v) {}
};
template <>
struct Part<bool> {
  bool v;
  std::string text;
  explicit Part(vh::Rng & rng) : v(rng.chance(0.5)), text(v ? "true" : "false") {}
};
template <class T>
  requires(std::is_integral_v<T>)
struct Part<T> {
  T v;
  std::string text;
  explicit Part(vh::Rng & rng) : v(randInt<T>(rng)), text(std::to_string(v)) {}
};
template <class T>
  requires(std::is_floating_point_v<T>)
struct Part<T> {
  T v;
  std::string text;
  explicit Part(vh::Rng & rng)
  {
    double const d = rng.chance(0.05)   ? rng.sign() * static_cast<double>(std::numeric_limits<T>::max())
                     : rng.chance(0.05) ? std::numeric_limits<double>::infinity()
                     : rng.chance(0.3)  ? static_cast<double>(rng.range(-1000, 1000))
                                        : rng.sign() * rng.logu(1e-9, 1e12);
    v = static_cast<T>(d);
    text = vh::fmt("%f", static_cast<double>(v));
  }
};

struct Line {
  int level = 0;
  std::string text;
  bool color = false, stamp = false;
  double lo = 0, hi = 0; // elapsed seconds before and after
};

struct Expected {
  std::vector<Line> out, err;
  Line last;
};

static double
elapsed()
{
  return std::chrono::duration<double>(lg::Clock::now() - lg::start_time).count();
}

template <class... A>
static void
emit(int level, bool macro, A const &... a)
{
  if (macro) {
    switch (level) {
    case 1:
      LOG_ERROR(a...);
      break;
    case 2:
      LOG_WARN(a...);
      break;
    case 3:
      LOG_INFO(a...);
      break;
    default:
      LOG_DEBUG(a...);
      break;
    }
  } else {
    switch (level) {
    case 1:
      lg::error(a...);
      break;
    case 2:
      lg::warn(a...);
      break;
    case 3:
      lg::info(a...);
      break;
    default:
      lg::debug(a...);
      break;
    }
  }
}

static void
expectLine(Expected & e, int level, bool macro, double lo, std::string const & text)
{
  if (level > lg::level || (macro && level > MAX_LOG_LEVEL)) {
    vh::count("suppressed messages");
    return;
  }
  Line l;
  l.level = level;
  l.text = text;
  l.color = lg::colorized;
  l.stamp = lg::timestamped;
  l.lo = lo;
  l.hi = elapsed();
  (level == 1 ? e.err : e.out).push_back(l);
  e.last = l;
  vh::count("emitted messages");
  if (text.size() > 256) {
    vh::count("messages longer than the limit");
  }
}

template <class... T>
static void
message(vh::Rng & rng, Expected & e)
{
  int const level = rng.range(1, 4);
  bool const macro = rng.chance(0.3);
  std::tuple<Part<T>...> parts{Part<T>(rng)...};
  std::apply(
      [&](auto const &... p) {
        std::string const text = (p.text + ...);
        double const lo = elapsed();
        emit(level, macro, p.v...);
        expectLine(e, level, macro, lo, text);
      },
      parts);
}

static void
literals(vh::Rng & rng, Expected & e)
{
  int const level = rng.range(1, 4);
  double const lo = elapsed();
  switch (rng.range(0, 3)) {
  case 0:
    emit(level, false, "");
    expectLine(e, level, false, lo, "");
    break;
  case 1:
    emit(level, false, "A literal");
    expectLine(e, level, false, lo, "A literal");
    break;
  case 2:
    emit(level, true, "100% of ", 3, " and ", 2.5, '.');
    expectLine(e, level, true, lo, "100% of 3 and 2.500000.");
    break;
  default: {
    int const k = rng.range(0, 99);
    emit(level, true, "a", k, "b", k, "c", k, "d", k, "e", k, "f", k, "g", k, "h", k, "i", k, "j", k);
    std::string t;
    for (char c = 'a'; c <= 'j'; ++c) {
      t += c + std::to_string(k);
    }
    expectLine(e, level, true, lo, t);
  }
  }
}

using C = char const *;
using V = um2::StringView;
using S = um2::String;
using MsgFn = void (*)(vh::Rng &, Expected &);
static std::vector<MsgFn> const kinds = {
    message<C>, message<V>, message<S>, message<char>, message<bool>, message<int32_t>, message<int8_t>, message<uint32_t>, message<int64_t>, message<uint64_t>,
    message<double>, message<float>, message<C, int32_t>, message<C, double, C>, message<S, C, S>, message<V, char, bool>, message<uint64_t, int64_t>,
    message<double, double, double>, message<C, C, C, C, C>, message<S, int8_t, C, bool, V>, message<bool, float, S>, message<int64_t, char, int64_t, char, int64_t>,
    message<C, S, double, V, bool, char, int32_t, uint32_t, C, float, S, bool>, message<double, bool>, message<S, bool>, message<V, char>, message<C, int64_t>, message<C, uint32_t>, literals};

static void
checkLine(std::string line, Line const & l, std::string const & key)
{
  std::string const orig = line;
  std::string const full = l.text;
  size_t limit = 200; // at least this much of a message is kept
  if (l.color) {
    std::string const c = l.level == 1 ? "\033[1;31m" : l.level == 2 ? "\033[1;33m" : l.level == 4 ? "\033[1;35m" : "";
    if (line.compare(0, c.size(), c) != 0 || line.size() < c.size() + 4 || line.compare(line.size() - 4, 4, "\033[0m") != 0) {
      vh::fail(key + ".color", "'%s'", orig.substr(0, 300).c_str());
      return;
    }
    line = line.substr(c.size(), line.size() - c.size() - 4);
  }
  if (l.stamp) {
    int h = -1, m = -1, s = -1, ms = -1, n = -1;
    if (sscanf(line.c_str(), "[%2d:%2d:%2d.%3d] %n", &h, &m, &s, &ms, &n) != 4 || n != 15 || m > 59 || s > 59) {
      vh::fail(key + ".stamp", "'%s'", orig.substr(0, 300).c_str());
      return;
    }
    double const t = h * 3600.0 + m * 60.0 + s + ms / 1000.0;
    VH(t > l.lo - 0.0021 && t < l.hi + 0.0021, key + ".time", "'%s' between %.4f and %.4f", orig.substr(0, 60).c_str(), l.lo, l.hi);
    line = line.substr(15);
  }
  static char const * const names[] = {"", "ERROR - ", "WARN - ", "INFO - ", "DEBUG - "};
  std::string const nm = names[l.level];
  if (line.compare(0, nm.size(), nm) != 0) {
    vh::fail(key + ".level", "'%s'", orig.substr(0, 300).c_str());
    return;
  }
  line = line.substr(nm.size());
  if (full.size() <= limit) {
    VH(line == full, key + ".text", "'%s' instead of '%s'", line.c_str(), full.c_str());
  } else {
    VH(line.size() >= limit && full.compare(0, line.size(), line) == 0, key + ".cut_text", "'%s' instead of '%s'", line.substr(0, 400).c_str(), full.substr(0, 400).c_str());
  }
}

static std::vector<std::string>
split(std::string const & s)
{
  std::vector<std::string> r;
  size_t p = 0;
  while (p < s.size()) {
    size_t const q = s.find('\n', p);
    if (q == std::string::npos) {
      r.push_back(s.substr(p) + "<no newline>");
      break;
    }
    r.push_back(s.substr(p, q - p));
    p = q + 1;
  }
  return r;
}

static void
checkAll(std::string const & text, std::vector<Line> const & want, std::string const & key)
{
  auto const ls = split(text);
  VH(ls.size() == want.size(), key + ".count", "%zu lines instead of %zu: %s", ls.size(), want.size(), text.substr(0, 500).c_str());
  if (ls.size() == want.size()) {
    for (size_t i = 0; i < ls.size(); ++i) {
      checkLine(ls[i], want[i], key);
    }
  }
}

static void
settings(vh::Rng & rng)
{
  lg::level = rng.range(0, 4);
  lg::timestamped = rng.chance(0.5);
  lg::colorized = rng.chance(0.5);
  if (rng.chance(0.3)) {
    lg::start_time = lg::Clock::now() - std::chrono::milliseconds(rng.range(0, 99) * 3600000LL + rng.range(0, 3599000));
  }
}

static void
terminating(vh::Rng & rng)
{
  bool const exits = rng.chance(0.5);
  int const thr = rng.range(0, 4);
  int const lv = rng.range(1, 4);
  bool const ends = exits && lv == 1 && thr >= 1;
  std::string out;
  int const st = vh::isolated(
      [&] {
        lg::level = thr;
        lg::timestamped = false;
        lg::colorized = false;
        lg::exit_on_error = exits;
        emit(lv, rng.chance(0.5) && lv <= MAX_LOG_LEVEL, "the message");
        printf("after\n");
        return true;
      },
      &out);
  VH((st == 2) == ends, ends ? "exit.missing" : "exit.unexpected", "threshold %d, message level %d, exit on error %d: %s", thr, lv, exits, out.substr(0, 200).c_str());
  VH((out.find("after") == std::string::npos) == ends, "exit.continues", "threshold %d, message level %d: %s", thr, lv, out.substr(0, 200).c_str());
  VH((out.find("the message") != std::string::npos) == (lv <= thr), "exit.message", "threshold %d, message level %d: %s", thr, lv, out.substr(0, 200).c_str());
  vh::count(ends ? "terminating errors" : "messages that must not terminate");
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "logger", [](vh::Rng & rng, uint64_t) {
    if (rng.chance(0.03)) {
      terminating(rng);
      return;
    }
    lg::reset();
    VH(lg::level == 3 && lg::timestamped && lg::colorized && lg::exit_on_error, "reset", "level %d %d %d %d", lg::level, lg::timestamped, lg::colorized, lg::exit_on_error);
    lg::exit_on_error = false;
    settings(rng);
    Expected e;
    int const n = rng.range(1, 8);
    std::string last;
    {
      vh::Capture cap;
      for (int i = 0; i < n; ++i) {
        if (rng.chance(0.3)) {
          settings(rng);
        }
        rng.pick(kinds)(rng, e);
      }
      cap.stop();
      lg::level = 0;
      last.assign(lg::getLastMessage().data(), lg::getLastMessage().size());
      checkAll(cap.out, e.out, "out");
      checkAll(cap.err, e.err, "err");
    }
    if (e.last.level != 0) {
      checkLine(last, e.last, "last");
    }
    if (e.out.size() + e.err.size() > 1) {
      vh::nontrivial(rng.next());
    }
    vh::sample(last);
  });
}
