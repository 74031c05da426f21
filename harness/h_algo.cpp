// C03: sorting, permutation and range utilities against std::.
#include "vh.hpp"
#include <um2/common/branchless_sort.hpp>
#include <um2/common/insertion_sort.hpp>
#include <um2/common/permutation.hpp>
#include <um2/stdlib/algorithm/clamp.hpp>
#include <um2/stdlib/algorithm/copy.hpp>
#include <um2/stdlib/algorithm/equal.hpp>
#include <um2/stdlib/algorithm/fill.hpp>
#include <um2/stdlib/algorithm/is_sorted.hpp>
#include <um2/stdlib/algorithm/lexicographical_compare.hpp>
#include <um2/stdlib/algorithm/max.hpp>
#include <um2/stdlib/algorithm/max_element.hpp>
#include <um2/stdlib/algorithm/min.hpp>
#include <um2/stdlib/numeric/iota.hpp>
#include <um2/stdlib/string.hpp>

#include <algorithm>
#include <memory>
#include <numeric>


using um2::String;

// value with an identity, ordered by value only
struct Item {
  int v = 0;
  int id = 0;
  bool
  operator<(Item const & o) const
  {
    return v < o.v;
  }
  bool
  operator==(Item const & o) const
  {
    return v == o.v && id == o.id;
  }
};

template <class T>
T make(vh::Rng & rng, int spread, int id);
template <>
int32_t
make(vh::Rng & rng, int spread, int)
{
  return rng.range(-spread, spread);
}
template <>
double
make(vh::Rng & rng, int spread, int)
{
  return spread > 50 ? rng.sign() * rng.logu(1e-12, 1e12) : rng.range(-spread, spread) * 0.5;
}
template <>
float
make(vh::Rng & rng, int spread, int)
{
  return static_cast<float>(make<double>(rng, spread, 0));
}
template <>
int8_t
make(vh::Rng & rng, int spread, int)
{
  return static_cast<int8_t>(rng.range(-std::min(spread, 120), std::min(spread, 120)));
}
template <>
uint64_t
make(vh::Rng & rng, int spread, int)
{
  return rng.next() >> (spread > 50 ? 0 : 61);
}
template <>
Item
make(vh::Rng & rng, int spread, int id)
{
  return Item{rng.range(-spread, spread), id};
}
template <>
String
make(vh::Rng & rng, int spread, int)
{
  std::string s(static_cast<size_t>(rng.range(0, spread > 50 ? 40 : 2)), 'a');
  for (auto & c : s) {
    c = static_cast<char>(rng.range('a', 'b'));
  }
  return String(s.c_str());
}

template <class T>
bool
same(T const & a, T const & b)
{
  return !(a < b) && !(b < a);
}

// exact multiset equality (for Item: with identity)
template <class T>
bool
isRearrangement(std::vector<T> a, std::vector<T> b)
{
  if (a.size() != b.size()) {
    return false;
  }
  for (auto const & x : a) {
    auto it = std::find_if(b.begin(), b.end(), [&](T const & y) {
      if constexpr (std::is_same_v<T, Item>) {
        return x == y;
      } else {
        return same(x, y);
      }
    });
    if (it == b.end()) {
      return false;
    }
    b.erase(it);
  }
  return true;
}

template <class T>
void
one(vh::Rng & rng, char const * tn)
{
  int const n = rng.chance(0.1) ? 0 : rng.chance(0.6) ? rng.range(1, 9) : rng.range(10, 60);
  int const spread = rng.pick(std::vector<int>{0, 1, 3, 100});
  std::vector<T> v;
  for (int i = 0; i < n; ++i) {
    v.push_back(make<T>(rng, spread, i));
  }
  int const shape = rng.range(0, 4);
  if (shape == 1) {
    std::stable_sort(v.begin(), v.end());
  } else if (shape == 2) {
    std::stable_sort(v.begin(), v.end(), [](T const & a, T const & b) { return b < a; });
  } else if (shape == 3 && n > 2) {
    std::stable_sort(v.begin(), v.end());
    std::swap(v[static_cast<size_t>(rng.range(0, n - 1))], v[static_cast<size_t>(rng.range(0, n - 1))]);
  }
  std::string const desc = vh::fmt("%s n=%d spread=%d shape=%d", tn, n, spread, shape);
  // exactly sized copies so that ASan sees out-of-range accesses
  std::unique_ptr<T[]> a(new T[static_cast<size_t>(n)]);
  for (int i = 0; i < n; ++i) {
    a[static_cast<size_t>(i)] = v[static_cast<size_t>(i)];
  }
  um2::insertionSort(a.get(), a.get() + n);
  std::vector<T> out(a.get(), a.get() + n);
  VH(std::is_sorted(out.begin(), out.end()), "algo.insertionSort.order", "%s", desc.c_str());
  VH(isRearrangement(v, out), "algo.insertionSort.multiset", "%s", desc.c_str());
  // permutation
  std::unique_ptr<Int[]> perm(new Int[static_cast<size_t>(n)]);
  std::unique_ptr<Int[]> inv(new Int[static_cast<size_t>(n)]);
  std::unique_ptr<T[]> b(new T[static_cast<size_t>(n)]);
  for (int i = 0; i < n; ++i) {
    b[static_cast<size_t>(i)] = v[static_cast<size_t>(i)];
  }
  um2::sortPermutation(b.get(), b.get() + n, perm.get());
  bool unmodified = true;
  for (int i = 0; i < n; ++i) {
    unmodified = unmodified && same(b[static_cast<size_t>(i)], v[static_cast<size_t>(i)]);
  }
  VH(unmodified, "algo.sortPermutation.input", "%s", desc.c_str());
  auto bijection = [&](Int const * p) {
    std::vector<int> seen(static_cast<size_t>(n), 0);
    for (int i = 0; i < n; ++i) {
      if (p[i] < 0 || p[i] >= n || seen[static_cast<size_t>(p[i])]++ != 0) {
        return false;
      }
    }
    return true;
  };
  if (!bijection(perm.get())) {
    vh::fail("algo.sortPermutation.bijection", "%s", desc.c_str());
    return;
  }
  bool sorted = true;
  for (int i = 1; i < n; ++i) {
    sorted = sorted && !(v[static_cast<size_t>(perm[static_cast<size_t>(i)])] < v[static_cast<size_t>(perm[static_cast<size_t>(i - 1)])]);
  }
  VH(sorted, "algo.sortPermutation.order", "%s", desc.c_str());
  // an arbitrary permutation too: all cycle shapes
  if (rng.chance(0.6)) {
    std::vector<Int> q(static_cast<size_t>(n));
    std::iota(q.begin(), q.end(), 0);
    int const kind = rng.range(0, 2);
    if (kind == 0) {
      rng.shuffle(q);
    } else if (kind == 1 && n > 0) {
      std::rotate(q.begin(), q.begin() + rng.range(0, n - 1), q.end());
    } else {
      std::reverse(q.begin(), q.end());
    }
    std::copy(q.begin(), q.end(), perm.get());
  }
  // swapping is only offered for trivially movable values
  constexpr bool swappable = std::is_trivially_move_constructible_v<T>;
  if constexpr (swappable) {
  um2::applyPermutation(b.get(), b.get() + n, perm.get());
  bool applied = true;
  for (int i = 0; i < n; ++i) {
    T const & want = v[static_cast<size_t>(perm[static_cast<size_t>(i)])];
    if constexpr (std::is_same_v<T, Item>) {
      applied = applied && b[static_cast<size_t>(i)] == want;
    } else {
      applied = applied && same(b[static_cast<size_t>(i)], want);
    }
  }
  VH(applied, "algo.applyPermutation", "%s", desc.c_str());
  um2::invertPermutation(perm.get(), perm.get() + n, inv.get());
  bool isinv = bijection(inv.get());
  for (int i = 0; i < n && isinv; ++i) {
    isinv = inv[static_cast<size_t>(perm[static_cast<size_t>(i)])] == i;
  }
  VH(isinv, "algo.invertPermutation", "%s", desc.c_str());
  if (isinv && applied) {
    um2::applyPermutation(b.get(), b.get() + n, inv.get());
    bool back = true;
    for (int i = 0; i < n; ++i) {
      back = back && same(b[static_cast<size_t>(i)], v[static_cast<size_t>(i)]);
    }
    VH(back, "algo.permutation.roundtrip", "%s", desc.c_str());
  }
  }
  // sort3/sort4
  if constexpr (swappable) if (n >= 4) {
    auto const o = static_cast<size_t>(rng.range(0, n - 4));
    T x[4] = {v[o], v[o + 1], v[o + 2], v[o + 3]};
    um2::sort3(&x[0], &x[1], &x[2]);
    VH(!(x[1] < x[0]) && !(x[2] < x[1]), "algo.sort3.order", "%s", desc.c_str());
    VH(isRearrangement(std::vector<T>{v[o], v[o + 1], v[o + 2]}, std::vector<T>{x[0], x[1], x[2]}), "algo.sort3.multiset", "%s", desc.c_str());
    T y[4] = {v[o], v[o + 1], v[o + 2], v[o + 3]};
    um2::sort4(&y[0], &y[1], &y[2], &y[3]);
    VH(std::is_sorted(y, y + 4), "algo.sort4.order", "%s", desc.c_str());
    VH(isRearrangement(std::vector<T>(v.begin() + static_cast<long>(o), v.begin() + static_cast<long>(o) + 4), std::vector<T>(y, y + 4)), "algo.sort4.multiset", "%s", desc.c_str());
  }
  // range utilities
  T const * p = a.get();
  VH(um2::is_sorted(v.data(), v.data() + n) == std::is_sorted(v.begin(), v.end()), "algo.is_sorted", "%s", desc.c_str());
  VH(um2::max_element(v.data(), v.data() + n) - v.data() == std::max_element(v.begin(), v.end()) - v.begin(), "algo.max_element", "%s", desc.c_str());
  (void)p;
  std::vector<T> w(v);
  if (n > 0 && rng.chance(0.7)) {
    w[static_cast<size_t>(rng.range(0, n - 1))] = make<T>(rng, spread, n);
  }
  if (rng.chance(0.4)) {
    w.resize(static_cast<size_t>(rng.range(0, n)));
  }
  VH(um2::lexicographical_compare(v.data(), v.data() + n, w.data(), w.data() + w.size()) ==
         std::lexicographical_compare(v.begin(), v.end(), w.begin(), w.end()),
     "algo.lexicographical", "%s vs %zu", desc.c_str(), w.size());
  if (w.size() == v.size()) {
    VH(um2::equal(v.data(), v.data() + n, w.data()) == std::equal(v.begin(), v.end(), w.begin()), "algo.equal", "%s", desc.c_str());
  }
  std::unique_ptr<T[]> d(new T[static_cast<size_t>(n)]);
  T * const e = um2::copy(v.data(), v.data() + n, d.get());
  bool cp = e == d.get() + n;
  for (int i = 0; i < n; ++i) {
    cp = cp && same(d[static_cast<size_t>(i)], v[static_cast<size_t>(i)]);
  }
  VH(cp, "algo.copy", "%s", desc.c_str());
  // between the two halves of one block: adjacent, not overlapping
  {
    std::unique_ptr<T[]> h(new T[static_cast<size_t>(2 * n)]);
    bool const front = rng.chance(0.5);
    T * const src = h.get() + (front ? n : 0);
    T * const dst = h.get() + (front ? 0 : n);
    for (int i = 0; i < n; ++i) {
      src[i] = v[static_cast<size_t>(i)];
    }
    um2::copy(src, src + n, dst);
    bool half = true;
    for (int i = 0; i < n; ++i) {
      half = half && same(dst[i], v[static_cast<size_t>(i)]) && same(src[i], v[static_cast<size_t>(i)]);
    }
    VH(half, "algo.copy.adjacent", "%s", desc.c_str());
  }
  if (n > 0) {
    T const val = make<T>(rng, 100, 7);
    int const i0 = rng.range(0, n);
    int const i1 = rng.range(i0, n);
    um2::fill(d.get() + i0, d.get() + i1, val);
    bool ok = true;
    for (int i = 0; i < n; ++i) {
      ok = ok && same(d[static_cast<size_t>(i)], i >= i0 && i < i1 ? val : v[static_cast<size_t>(i)]);
    }
    VH(ok, "algo.fill", "%s", desc.c_str());
  }
  if (n >= 3) {
    T const & x = v[0];
    T const & y = v[1];
    VH(&um2::min(x, y) == &std::min(x, y) && &um2::max(x, y) == &std::max(x, y), "algo.minmax", "%s", desc.c_str());
    T lo = v[1];
    T hi = v[2];
    if (hi < lo) {
      std::swap(lo, hi);
    }
    if constexpr (!std::is_same_v<T, Item>) {
      VH(same(um2::clamp(x, lo, hi), std::clamp(x, lo, hi)), "algo.clamp", "%s", desc.c_str());
    }
  }
  std::vector<Int> io(static_cast<size_t>(n));
  int const start = rng.range(-5, 5);
  um2::iota(io.data(), io.data() + n, start);
  bool iok = true;
  for (int i = 0; i < n; ++i) {
    iok = iok && io[static_cast<size_t>(i)] == start + i;
  }
  VH(iok, "algo.iota", "%s", desc.c_str());
  if (n >= 2) {
    vh::count("ranges with two or more values");
    vh::nontrivial(vh::mix(vh::hashStr(desc) + rng.s));
  } else {
    vh::count("empty or single ranges");
  }
  vh::sample(desc);
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "algo", [](vh::Rng & rng, uint64_t i) {
    if (i < 256 + 27) { // exhaustive small networks: every weak ordering of 4 (3) values
      int x[4];
      int const k = i < 256 ? static_cast<int>(i) : static_cast<int>(i) - 256;
      int const base = i < 256 ? 4 : 3;
      int const cnt = i < 256 ? 4 : 3;
      int q = k;
      for (int j = 0; j < cnt; ++j) {
        x[j] = q % base;
        q /= base;
      }
      std::vector<int> w(x, x + cnt);
      std::sort(w.begin(), w.end());
      if (cnt == 4) {
        um2::sort4(&x[0], &x[1], &x[2], &x[3]);
      } else {
        um2::sort3(&x[0], &x[1], &x[2]);
      }
      VH(std::equal(w.begin(), w.end(), x), "algo.network.exhaustive", "pattern %d of %d values", k, cnt);
      vh::count("exhaustive networks");
      return;
    }
    switch (i % 7) {
    case 0:
      return one<int32_t>(rng, "i32");
    case 1:
      return one<double>(rng, "f64");
    case 2:
      return one<float>(rng, "f32");
    case 3:
      return one<int8_t>(rng, "i8");
    case 4:
      return one<uint64_t>(rng, "u64");
    case 5:
      return one<Item>(rng, "item");
    default:
      return one<String>(rng, "string");
    }
  });
}
