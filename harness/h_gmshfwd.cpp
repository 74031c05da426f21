// The mesher's functions offered by the library do what the mesher's functions do.
// The mesher is replaced by recording stand-ins: every call that reaches it is
// written down with its arguments, its results are filled with arbitrary values, and
// both are compared with what the caller passed and got.
#include "vh.hpp"

#include <um2/config.hpp>
#include <um2/gmsh/base_gmsh_api.hpp>

#include <gmsh.h>

#include <functional>
#include <string>
#include <vector>

namespace fwd
{

vh::Rng * rng = nullptr;
std::vector<std::string> calls;    // names of the calls that reached the mesher
std::vector<std::string> seen;     // inputs the mesher saw
std::vector<std::string> filled;   // outputs the mesher gave
std::string returned;
std::string name;                  // the expected call
std::vector<std::string> wanted;
std::vector<std::string> obtained; // outputs the caller got
std::string returned_to_caller;

std::string s(int v) { return "i" + std::to_string(v); }
std::string s(bool v) { return v ? "true" : "false"; }
std::string s(std::size_t v) { return "u" + std::to_string(v); }
std::string s(double v) { return vh::fmt("%a", v); }
std::string s(std::string const & v) { return "\"" + v + "\""; }
std::string s(void const * v) { return vh::fmt("%p", v); }
std::string s(char ** v) { return vh::fmt("%p", static_cast<void *>(v)); }
using Callback = std::function<double(int, int, double, double, double, double)>;
std::string
s(Callback const & v)
{
  if (!v) {
    return "none";
  }
  return s(v(1, 2, 3.5, 4.5, 5.5, 6.5)) + s(v(2, 1, 0.5, -4.5, 1.5, 7.5));
}
template <class A, class B>
std::string
s(std::pair<A, B> const & v)
{
  return "(" + s(v.first) + "," + s(v.second) + ")";
}
template <class T>
std::string
s(std::vector<T> const & v)
{
  std::string o = "[";
  for (auto const & e : v) {
    o += s(e) + " ";
  }
  return o + "]";
}

template <class T>
struct Gen;
template <>
struct Gen<int> {
  static int make(vh::Rng & r)
  {
    return r.chance(0.5) ? static_cast<int>(r.range(-1000, 1000))
                         : static_cast<int>(static_cast<uint32_t>(r.next()));
  }
};
template <>
struct Gen<bool> {
  static bool make(vh::Rng & r) { return r.chance(0.5); }
};
template <>
struct Gen<std::size_t> {
  static std::size_t make(vh::Rng & r) { return r.chance(0.5) ? r.next() : r.next() % 1000; }
};
template <>
struct Gen<double> {
  static double make(vh::Rng & r)
  {
    return r.chance(0.1) ? static_cast<double>(r.range(-3, 3)) : r.uni(-10, 10);
  }
};
template <>
struct Gen<std::string> {
  static std::string make(vh::Rng & r)
  {
    std::string o;
    auto const n = r.range(0, 40);
    for (int64_t i = 0; i < n; ++i) {
      o += static_cast<char>(r.range(1, 126));
    }
    return o;
  }
};
template <>
struct Gen<void *> {
  static void * make(vh::Rng & r) { return reinterpret_cast<void *>(r.next()); }
};
template <>
struct Gen<char **> {
  static char ** make(vh::Rng & r) { return reinterpret_cast<char **>(r.next() & ~7ULL); }
};
template <>
struct Gen<Callback> {
  static Callback make(vh::Rng & r)
  {
    double const k = r.uni(-1, 1);
    return [k](int a, int b, double x, double y, double z, double l) {
      return k * a + b * 10 + x * 100 + y * 1000 + z * 10000 + l * 1e5;
    };
  }
};
template <class A, class B>
struct Gen<std::pair<A, B>> {
  static std::pair<A, B> make(vh::Rng & r)
  {
    A const a = Gen<A>::make(r);
    return {a, Gen<B>::make(r)};
  }
};
template <class T>
struct Gen<std::vector<T>> {
  static std::vector<T> make(vh::Rng & r)
  {
    std::vector<T> o;
    auto const n = r.range(0, 5);
    for (int64_t i = 0; i < n; ++i) {
      o.push_back(Gen<T>::make(r));
    }
    return o;
  }
};

template <class T>
T
gen(vh::Rng & r)
{
  return Gen<T>::make(r);
}

// The mesher's side.
void
begin(char const * n)
{
  calls.push_back(n);
}
template <class T>
void
in(T const & v)
{
  seen.push_back(s(v));
}
template <class T>
void
out(T & v)
{
  v = Gen<T>::make(*rng);
  filled.push_back(s(v));
}
template <class T>
T
ret()
{
  T const v = Gen<T>::make(*rng);
  returned = s(v);
  return v;
}

// The caller's side.
void
expect(char const * n)
{
  calls.clear();
  seen.clear();
  filled.clear();
  wanted.clear();
  obtained.clear();
  returned.clear();
  returned_to_caller.clear();
  name = n;
}
template <class T>
void
want(T const & v)
{
  wanted.push_back(s(v));
}
template <class T>
void
got(T const & v)
{
  obtained.push_back(s(v));
}
template <class T>
void
gotRet(T const & v)
{
  returned_to_caller = s(v);
}

std::string
join(std::vector<std::string> const & v)
{
  std::string o;
  for (auto const & e : v) {
    o += e + "; ";
  }
  return o;
}

} // namespace fwd

struct Wrapped {
  char const * name;
  void (*test)(vh::Rng &, int);
  int defaults;
};

#include "gmshfwd.hpp"

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "gmshfwd", [](vh::Rng & rng, uint64_t i) {
    auto const n = sizeof(table) / sizeof(table[0]);
    auto const & w = table[i % n];
    fwd::rng = &rng;
    // Every number of omitted arguments, each with several sets of values.
    for (int omit = 0; omit <= w.defaults; ++omit) {
      for (int rep = 0; rep < 4; ++rep) {
        w.test(rng, omit);
        vh::count("calls");
        if (omit > 0) {
          vh::count("defaults");
        }
        auto const calls = fwd::join(fwd::calls);
        VH(calls == fwd::join({w.name}), vh::fmt("%s.call", w.name),
           "the call reached the mesher as: %s", calls.c_str());
        auto const seen = fwd::join(fwd::seen);
        auto const wanted = fwd::join(fwd::wanted);
        VH(seen == wanted, vh::fmt("%s.arguments", w.name),
           "%d left out, mesher got %s for %s", omit, seen.c_str(), wanted.c_str());
        if (!fwd::filled.empty()) {
          vh::count("results");
        }
        auto const filled = fwd::join(fwd::filled);
        auto const obtained = fwd::join(fwd::obtained);
        VH(filled == obtained, vh::fmt("%s.results", w.name), "mesher gave %s, caller got %s",
           filled.c_str(), obtained.c_str());
        VH(fwd::returned == fwd::returned_to_caller, vh::fmt("%s.returned", w.name),
           "mesher returned %s, caller got %s", fwd::returned.c_str(),
           fwd::returned_to_caller.c_str());
        vh::nontrivial(std::hash<std::string>{}(std::string(w.name) + wanted + filled));
      }
    }
    if (i < n) {
      vh::sample(vh::fmt("%s with %d arguments left out at most", w.name, w.defaults));
    }
  });
}
