// C01: histories of array operations against std::vector, with element types that
// count their own constructions and destructions.
#include "vh.hpp"
#include <um2/stdlib/string.hpp>
#include <um2/stdlib/vector.hpp>

#include <algorithm>
#include <set>

static long g_live = 0;
static long g_ctor = 0;
static long g_dtor = 0;
static std::set<void const *> g_addr;
static bool g_bad = false;

// Owns a heap block, knows its own address, detects double construction/destruction.
struct Tracked {
  int * p;
  Tracked * self;
  void
  born()
  {
    self = this;
    ++g_live;
    ++g_ctor;
    if (!g_addr.insert(this).second) {
      g_bad = true;
    }
  }
  Tracked() : p(new int(0)) { born(); }
  Tracked(int v) : p(new int(v)) { born(); }
  Tracked(int a, int b) : p(new int(a * 1000 + b)) { born(); }
  Tracked(Tracked const & o) : p(new int(o.value())) { born(); }
  Tracked(Tracked && o) noexcept : p(o.p)
  {
    o.check();
    o.p = nullptr;
    born();
  }
  Tracked &
  operator=(Tracked const & o)
  {
    check();
    if (this != &o) {
      int const v = o.value();
      delete p;
      p = new int(v);
    }
    return *this;
  }
  Tracked &
  operator=(Tracked && o) noexcept
  {
    check();
    o.check();
    if (this != &o) {
      delete p;
      p = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~Tracked()
  {
    check();
    if (g_addr.erase(this) != 1) {
      g_bad = true;
    }
    --g_live;
    ++g_dtor;
    delete p;
    p = nullptr;
    self = nullptr;
  }
  void
  check() const
  {
    if (self != this) {
      g_bad = true;
    }
  }
  int
  value() const
  {
    check();
    return p == nullptr ? -777777 : *p;
  }
  bool
  operator==(Tracked const & o) const
  {
    return value() == o.value();
  }
  bool
  operator<(Tracked const & o) const
  {
    return value() < o.value();
  }
};

struct alignas(32) Wide {
  double d[4];
  // a value-initialised element is ordered by a value no other element has
  double
  key() const
  {
    return d[0] == 0 && d[1] == 0 ? -99 : d[0];
  }
  bool
  operator==(Wide const & o) const
  {
    return memcmp(d, o.d, sizeof d) == 0;
  }
  bool
  operator<(Wide const & o) const
  {
    return key() < o.key();
  }
};

template <class T>
struct Tr;
template <>
struct Tr<int32_t> {
  using M = int32_t;
  static constexpr char const * name = "i32";
  static int32_t
  make(int v)
  {
    return v;
  }
  static M
  model(int32_t const & x)
  {
    return x;
  }
};
template <>
struct Tr<int8_t> {
  using M = int8_t;
  static constexpr char const * name = "i8";
  static int8_t
  make(int v)
  {
    return static_cast<int8_t>(v);
  }
  static M
  model(int8_t const & x)
  {
    return x;
  }
};
template <>
struct Tr<double> {
  using M = double;
  static constexpr char const * name = "f64";
  static double
  make(int v)
  {
    return v * 0.5;
  }
  static M
  model(double const & x)
  {
    return x;
  }
};
template <>
struct Tr<Wide> {
  using M = double;
  static constexpr char const * name = "wide";
  static Wide
  make(int v)
  {
    return Wide{{double(v), v + 1.0, v + 2.0, v + 3.0}};
  }
  static M
  model(Wide const & x)
  {
    bool const z = x.d[0] == 0 && x.d[1] == 0 && x.d[2] == 0 && x.d[3] == 0;
    if (!z && (x.d[1] != x.d[0] + 1 || x.d[2] != x.d[0] + 2 || x.d[3] != x.d[0] + 3)) {
      return -123456;
    }
    return z ? -99 : x.d[0];
  }
};
template <>
struct Tr<Tracked> {
  using M = int;
  static constexpr char const * name = "tracked";
  static Tracked
  make(int v)
  {
    return Tracked(v);
  }
  static M
  model(Tracked const & x)
  {
    return x.value();
  }
};
static std::string
strOf(int v)
{
  std::string s = "s" + std::to_string(v);
  if (v % 3 == 0) {
    s += "_a_string_that_is_long_enough_for_the_heap";
  }
  return s;
}
template <>
struct Tr<um2::String> {
  using M = std::string;
  static constexpr char const * name = "string";
  static um2::String
  make(int v)
  {
    return um2::String(strOf(v).c_str());
  }
  static M
  model(um2::String const & x)
  {
    return std::string(x.data(), static_cast<size_t>(x.size()));
  }
};
template <>
struct Tr<um2::Vector<int32_t>> {
  using M = std::vector<int>;
  static constexpr char const * name = "nested";
  static um2::Vector<int32_t>
  make(int v)
  {
    um2::Vector<int32_t> r;
    for (int i = 0; i < v % 5; ++i) {
      r.push_back(v + i);
    }
    return r;
  }
  static M
  model(um2::Vector<int32_t> const & x)
  {
    return std::vector<int>(x.begin(), x.end());
  }
};

template <class T>
static void
history(vh::Rng & rng)
{
  using M = typename Tr<T>::M;
  std::string log = Tr<T>::name;
  log += ":";
  g_bad = false;
  long const live0 = g_live;
  bool realloc_seen = false;
  bool alias_seen = false;
  {
    constexpr int NV = 3;
    um2::Vector<T> v[NV];
    std::vector<M> m[NV];
    // identity of a default-constructed element
    M const dflt = Tr<T>::model(T());
    auto checkAll = [&](char const * op) {
      for (int k = 0; k < NV; ++k) {
        auto const & cv = v[k];
        if (cv.size() != static_cast<Int>(m[k].size())) {
          vh::fail(std::string("vector.size.") + op, "%s size %d want %zu after %s", Tr<T>::name, cv.size(), m[k].size(), log.c_str());
          return false;
        }
        VH(cv.empty() == m[k].empty(), "vector.empty", "%s", log.c_str());
        VH(cv.capacity() >= cv.size(), "vector.capacity", "%s", log.c_str());
        VH(cv.end() - cv.begin() == cv.size() && cv.cend() - cv.cbegin() == cv.size() && cv.data() == cv.begin(),
           "vector.iter", "%s", log.c_str());
        if (reinterpret_cast<uintptr_t>(cv.data()) % alignof(T) != 0) {
          vh::fail("vector.align", "%s", log.c_str());
        }
        for (size_t i = 0; i < m[k].size(); ++i) {
          if (!(Tr<T>::model(cv[static_cast<Int>(i)]) == m[k][i])) {
            vh::fail(std::string("vector.value.") + op, "%s element %zu differs after %s", Tr<T>::name, i, log.c_str());
            return false;
          }
        }
        if (!m[k].empty()) {
          VH(Tr<T>::model(cv.front()) == m[k].front() && Tr<T>::model(cv.back()) == m[k].back(), "vector.frontback", "%s", log.c_str());
        }
      }
      if (g_bad) {
        vh::fail(std::string("vector.lifetime.") + op, "%s object constructed/destroyed twice or used when dead: %s", Tr<T>::name, log.c_str());
        return false;
      }
      if constexpr (std::is_same_v<T, Tracked>) {
        long want = 0;
        for (int k = 0; k < NV; ++k) {
          want += static_cast<long>(m[k].size());
        }
        if (g_live - live0 != want) {
          vh::fail(std::string("vector.livecount.") + op, "%ld live objects, want %ld after %s", g_live - live0, want, log.c_str());
          return false;
        }
      }
      return true;
    };
    int const steps = rng.range(5, 45);
    for (int s = 0; s < steps; ++s) {
      int const a = rng.range(0, NV - 1);
      int const b = rng.range(0, NV - 1);
      int const val = rng.range(-50, 500);
      int const op = rng.range(0, 21);
      Int const cap0 = v[a].capacity();
      char const * opname = "?";
      switch (op) {
      case 0: {
        opname = "push_copy";
        T const t = Tr<T>::make(val);
        M const mt = Tr<T>::model(t);
        v[a].push_back(t);
        m[a].push_back(mt);
        VH(Tr<T>::model(t) == mt, "vector.push_copy_modified_argument", "%s", log.c_str());
        break;
      }
      case 1: {
        opname = "push_move";
        T t = Tr<T>::make(val);
        M const mt = Tr<T>::model(t);
        v[a].push_back(um2::move(t));
        m[a].push_back(mt);
        break;
      }
      case 2: {
        opname = "emplace";
        T t = Tr<T>::make(val);
        M const mt = Tr<T>::model(t);
        v[a].emplace_back(um2::move(t));
        m[a].push_back(mt);
        break;
      }
      case 3:
      case 4: {
        opname = "push_alias";
        if (!m[a].empty()) {
          int const i = rng.range(0, static_cast<int>(m[a].size()) - 1);
          M const mt = m[a][static_cast<size_t>(i)];
          v[a].push_back(v[a][i]);
          m[a].push_back(mt);
          alias_seen = true;
        }
        break;
      }
      case 5: {
        opname = "emplace_alias";
        if (!m[a].empty()) {
          int const i = rng.range(0, static_cast<int>(m[a].size()) - 1);
          M const mt = m[a][static_cast<size_t>(i)];
          T const & ref = v[a][i];
          v[a].emplace_back(ref);
          m[a].push_back(mt);
          alias_seen = true;
        }
        break;
      }
      case 6:
        opname = "pop";
        if (!m[a].empty()) {
          v[a].pop_back();
          m[a].pop_back();
        }
        break;
      case 7: {
        opname = "resize";
        int const n = rng.range(0, 12);
        v[a].resize(n);
        m[a].resize(static_cast<size_t>(n), dflt);
        break;
      }
      case 8: {
        opname = "reserve";
        int const n = rng.range(0, 40);
        v[a].reserve(n);
        VH(v[a].capacity() >= n, "vector.reserve", "%s", log.c_str());
        break;
      }
      case 9:
        opname = "clear";
        v[a].clear();
        m[a].clear();
        VH(v[a].capacity() == cap0, "vector.clear_capacity", "%s", log.c_str());
        break;
      case 10:
      case 11:
        opname = "copy_assign";
        v[a] = v[b];
        m[a] = m[b];
        break;
      case 12:
      case 13:
        opname = "move_assign";
        if (a != b) {
          v[a] = um2::move(v[b]);
          m[a] = m[b];
          m[b].clear();
          // a moved-from array is empty and usable
        } else {
          auto & r = v[a];
          v[a] = um2::move(r);
        }
        break;
      case 14: {
        opname = "copy_ctor";
        um2::Vector<T> c(v[b]);
        VH(c == v[b] && !(c != v[b]), "vector.copy_equal", "%s", log.c_str());
        if (a != b) {
          v[a] = um2::move(c);
          m[a] = m[b];
        }
        break;
      }
      case 15: {
        opname = "move_ctor";
        um2::Vector<T> c(um2::move(v[b]));
        VH(v[b].empty() && v[b].size() == 0 && v[b].capacity() == 0, "vector.moved_from_nonempty", "%s", log.c_str());
        std::vector<M> mc = m[b];
        m[b].clear();
        v[a] = um2::move(c);
        m[a] = mc;
        break;
      }
      case 16: {
        opname = "fill_ctor";
        int const n = rng.range(1, 9);
        T const t = Tr<T>::make(val);
        um2::Vector<T> c(n, t);
        v[a] = c;
        m[a].assign(static_cast<size_t>(n), Tr<T>::model(t));
        break;
      }
      case 17: {
        opname = "size_ctor";
        int const n = rng.range(1, 9);
        um2::Vector<T> c(n);
        v[a] = um2::move(c);
        m[a].assign(static_cast<size_t>(n), dflt);
        break;
      }
      case 18: {
        opname = "range_ctor";
        int const n = static_cast<int>(m[b].size());
        int const lo = rng.range(0, n);
        int const hi = rng.range(lo, n);
        um2::Vector<T> c(v[b].begin() + lo, v[b].begin() + hi);
        std::vector<M> mc(m[b].begin() + lo, m[b].begin() + hi);
        v[a] = um2::move(c);
        m[a] = mc;
        break;
      }
      case 19: {
        opname = "assign";
        if (a != b) {
          int const n = static_cast<int>(m[b].size());
          int const lo = rng.range(0, n);
          int const hi = rng.range(lo, n);
          v[a].assign(v[b].begin() + lo, v[b].begin() + hi);
          m[a] = std::vector<M>(m[b].begin() + lo, m[b].begin() + hi);
        }
        break;
      }
      case 20: {
        opname = "init_list";
        if (rng.chance(0.5)) {
          um2::Vector<T> c({Tr<T>::make(1), Tr<T>::make(val), Tr<T>::make(3)});
          v[a] = c;
        } else {
          v[a] = {Tr<T>::make(1), Tr<T>::make(val), Tr<T>::make(3)};
        }
        m[a] = {Tr<T>::model(Tr<T>::make(1)), Tr<T>::model(Tr<T>::make(val)), Tr<T>::model(Tr<T>::make(3))};
        break;
      }
      default: {
        opname = "write";
        if (!m[a].empty()) {
          int const i = rng.range(0, static_cast<int>(m[a].size()) - 1);
          v[a][i] = Tr<T>::make(val);
          m[a][static_cast<size_t>(i)] = Tr<T>::model(Tr<T>::make(val));
        }
        break;
      }
      }
      realloc_seen = realloc_seen || (cap0 > 0 && v[a].capacity() > cap0);
      log += vh::fmt(" %s(%d,%d,%d)", opname, a, b, val);
      vh::count(std::string("op ") + opname);
      if (!checkAll(opname)) {
        return;
      }
      // relational operators
      bool const eq = m[a] == m[b];
      bool lt = false;
      bool gt = false;
      if constexpr (!std::is_same_v<T, um2::Vector<int32_t>> || true) {
        lt = std::lexicographical_compare(m[a].begin(), m[a].end(), m[b].begin(), m[b].end());
        gt = std::lexicographical_compare(m[b].begin(), m[b].end(), m[a].begin(), m[a].end());
      }
      auto const & x = v[a];
      auto const & y = v[b];
      VH((x == y) == eq && (x != y) == !eq, "vector.eq", "%s", log.c_str());
      VH((x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt, "vector.order", "%s", log.c_str());
    }
  }
  if (g_bad) {
    vh::fail("vector.lifetime.end", "%s", log.c_str());
  }
  if (g_live != live0) {
    vh::fail("vector.leak", "%ld objects left alive: %s", g_live - live0, log.c_str());
  }
  if (realloc_seen) {
    vh::count("histories with reallocation");
  }
  if (alias_seen) {
    vh::count("histories with aliasing argument");
  }
  if (realloc_seen || alias_seen) {
    vh::nontrivial(vh::hashStr(log));
  }
  vh::sample(log);
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "vector", [](vh::Rng & rng, uint64_t i) {
    switch (i % 7) {
    case 0:
      history<int32_t>(rng);
      break;
    case 1:
      history<Tracked>(rng);
      break;
    case 2:
      history<um2::String>(rng);
      break;
    case 3:
      history<um2::Vector<int32_t>>(rng);
      break;
    case 4:
      history<Wide>(rng);
      break;
    case 5:
      history<double>(rng);
      break;
    default:
      history<int8_t>(rng);
      break;
    }
  });
}
