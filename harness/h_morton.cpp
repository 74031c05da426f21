// C04: Z-order codes against a bit-by-bit reference; run in builds with and without the
// bit-manipulation instructions.
#include "vh.hpp"
#include <um2/geometry/morton_sort_points.hpp>
#include <um2/math/morton.hpp>

#include <algorithm>



template <class U>
static U
ref(std::vector<U> const & c)
{
  U r = 0;
  size_t const d = c.size();
  size_t const bits = 8 * sizeof(U) / d;
  for (size_t b = 0; b < bits; ++b) {
    for (size_t k = 0; k < d; ++k) {
      r |= static_cast<U>((c[k] >> b) & 1U) << (b * d + k);
    }
  }
  return r;
}

template <class U>
static void
ints(vh::Rng & rng, U x, U y, U z)
{
  constexpr U m2 = um2::max_2d_morton_coord<U>;
  constexpr U m3 = um2::max_3d_morton_coord<U>;
  static_assert(m2 == (sizeof(U) == 4 ? U(0xffff) : U(0xffffffff)));
  U const x2 = x & m2;
  U const y2 = y & m2;
  U const c2 = um2::mortonEncode(x2, y2);
  VH(c2 == ref<U>({x2, y2}), "morton.encode2", "%zu bit (%lu,%lu)", 8 * sizeof(U), (unsigned long)x2, (unsigned long)y2);
  U a = 0;
  U b = 0;
  um2::mortonDecode(c2, a, b);
  VH(a == x2 && b == y2, "morton.decode2", "%zu bit (%lu,%lu) -> (%lu,%lu)", 8 * sizeof(U), (unsigned long)x2, (unsigned long)y2, (unsigned long)a, (unsigned long)b);
  U const x3 = x & m3;
  U const y3 = y & m3;
  U const z3 = z & m3;
  U const c3 = um2::mortonEncode(x3, y3, z3);
  VH(c3 == ref<U>({x3, y3, z3}), "morton.encode3", "%zu bit (%lu,%lu,%lu)", 8 * sizeof(U), (unsigned long)x3, (unsigned long)y3, (unsigned long)z3);
  U c = 0;
  um2::mortonDecode(c3, a, b, c);
  VH(a == x3 && b == y3 && c == z3, "morton.decode3", "%zu bit (%lu,%lu,%lu) -> (%lu,%lu,%lu)", 8 * sizeof(U), (unsigned long)x3, (unsigned long)y3, (unsigned long)z3,
     (unsigned long)a, (unsigned long)b, (unsigned long)c);
  vh::count("integer codes", 2);
  (void)rng;
}

static double
coord(vh::Rng & rng)
{
  switch (rng.range(0, 5)) {
  case 0:
    return rng.range(0, 1);
  case 1:
    return rng.range(0, 16) / 16.0;
  case 2:
    return rng.range(0, 65535) / 65535.0;
  case 3:
    return std::nextafter(rng.range(0, 65535) / 65535.0, rng.range(0, 1));
  default:
    return rng.u();
  }
}

template <class U, class T>
static void
floats(vh::Rng & rng)
{
  T const x = static_cast<T>(coord(rng));
  T const y = static_cast<T>(coord(rng));
  T const z = static_cast<T>(coord(rng));
  auto check = [](T v, U q, U m) {
    // the integer coordinate is the cell of the scaled value
    long double const s = static_cast<long double>(v) * static_cast<long double>(m);
    long double const tol = static_cast<long double>(m) * (sizeof(T) == 4 ? 1.2e-7L : 2.3e-16L);
    return q <= m && static_cast<long double>(q) <= s + tol && static_cast<long double>(q) > s - 1 - tol;
  };
  constexpr U m2 = um2::max_2d_morton_coord<U>;
  constexpr U m3 = um2::max_3d_morton_coord<U>;
  U a = 0;
  U b = 0;
  U c = 0;
  U const c2 = um2::mortonEncode<U, T>(x, y);
  um2::mortonDecode(c2, a, b);
  VH(check(x, a, m2) && check(y, b, m2), "morton.float2", "%zu/%zu (%.17g,%.17g) -> (%lu,%lu)", sizeof(U), sizeof(T), (double)x, (double)y, (unsigned long)a, (unsigned long)b);
  T dx = 0;
  T dy = 0;
  T dz = 0;
  um2::mortonDecode(c2, dx, dy);
  T const tol2 = static_cast<T>(1.001) / static_cast<T>(m2) + 4 * std::numeric_limits<T>::epsilon();
  VH(std::abs(dx - x) <= tol2 && std::abs(dy - y) <= tol2 && dx >= 0 && dx <= 1 && dy >= 0 && dy <= 1, "morton.floatdecode2", "(%.17g,%.17g)", (double)x, (double)y);
  U const c3 = um2::mortonEncode<U, T>(x, y, z);
  um2::mortonDecode(c3, a, b, c);
  VH(check(x, a, m3) && check(y, b, m3) && check(z, c, m3), "morton.float3", "(%.17g,%.17g,%.17g)", (double)x, (double)y, (double)z);
  um2::mortonDecode(c3, dx, dy, dz);
  T const tol3 = static_cast<T>(1.001) / static_cast<T>(m3) + 4 * std::numeric_limits<T>::epsilon();
  VH(std::abs(dx - x) <= tol3 && std::abs(dy - y) <= tol3 && std::abs(dz - z) <= tol3, "morton.floatdecode3", "(%.17g,%.17g,%.17g)", (double)x, (double)y, (double)z);
  vh::count("float codes", 2);
}

template <Int D, class T>
static uint32_t
refCode(um2::Point<D, T> const & p)
{
  std::vector<uint32_t> c;
  for (Int k = 0; k < D; ++k) {
    uint32_t const m = D == 2 ? um2::max_2d_morton_coord<uint32_t> : um2::max_3d_morton_coord<uint32_t>;
    c.push_back(static_cast<uint32_t>(p[k] * m));
  }
  return ref<uint32_t>(c);
}

template <Int D, class T>
static void
sorting(vh::Rng & rng)
{
  int const n = rng.range(0, 60);
  using P = um2::Point<D, T>;
  std::vector<P> pts;
  for (int i = 0; i < n; ++i) {
    P p;
    for (Int k = 0; k < D; ++k) {
      p[k] = static_cast<T>(coord(rng));
    }
    pts.push_back(i > 0 && rng.chance(0.1) ? pts[static_cast<size_t>(rng.range(0, i - 1))] : p);
  }
  auto lessP = [](P const & a, P const & b) {
    for (Int k = 0; k < D; ++k) {
      if (a[k] != b[k]) {
        return a[k] < b[k];
      }
    }
    return false;
  };
  std::vector<P> s(pts);
  um2::mortonSort(s.data(), s.data() + n);
  bool ok = true;
  for (int i = 1; i < n; ++i) {
    ok = ok && refCode<D, T>(s[static_cast<size_t>(i - 1)]) <= refCode<D, T>(s[static_cast<size_t>(i)]);
  }
  VH(ok, "morton.sort.order", "D=%d n=%d", D, n);
  std::vector<P> a(pts);
  std::vector<P> b(s);
  std::sort(a.begin(), a.end(), lessP);
  std::sort(b.begin(), b.end(), lessP);
  bool same = true;
  for (size_t i = 0; i < a.size(); ++i) {
    for (Int k = 0; k < D; ++k) {
      same = same && a[i][k] == b[i][k];
    }
  }
  VH(same, "morton.sort.multiset", "D=%d n=%d", D, n);
  // permutation, with and without a scale
  for (int mode = 0; mode < 2; ++mode) {
    std::vector<Int> perm(static_cast<size_t>(n), -7);
    std::vector<P> q(pts);
    um2::Vec<D, T> scale;
    for (Int k = 0; k < D; ++k) {
      scale[k] = mode == 0 ? 1 : static_cast<T>(std::ldexp(1.0, rng.range(-12, 6)));
      for (auto & p : q) {
        p[k] = p[k] / scale[k];
      }
    }
    if (mode == 0) {
      um2::mortonSortPermutation(q.data(), q.data() + n, perm.data());
    } else {
      um2::mortonSortPermutation(q.data(), q.data() + n, perm.data(), scale);
    }
    std::vector<int> seen(static_cast<size_t>(n), 0);
    bool bij = true;
    for (Int const i : perm) {
      bij = bij && i >= 0 && i < n && seen[static_cast<size_t>(i)]++ == 0;
    }
    VH(bij, "morton.perm.bijection", "D=%d n=%d", D, n);
    bool ord = bij;
    for (int i = 1; i < n && bij; ++i) {
      ord = ord && refCode<D, T>(pts[static_cast<size_t>(perm[static_cast<size_t>(i - 1)])]) <= refCode<D, T>(pts[static_cast<size_t>(perm[static_cast<size_t>(i)])]);
    }
    VH(!bij || ord, "morton.perm.order", "D=%d n=%d scale mode %d", D, n, mode);
  }
  if (n > 2) {
    vh::nontrivial(rng.s);
    vh::count("point sets sorted");
  }
  if (n > 0) {
    vh::sample(vh::fmt("D=%d n=%d first (%.6g,%.6g) code %u", D, n, (double)pts[0][0], (double)pts[0][1], refCode<D, T>(pts[0])));
  }
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "morton", [](vh::Rng & rng, uint64_t i) {
    // exhaustive in each coordinate of the 32-bit codes over 256 cases
    if (i < 256) {
      for (uint32_t k = 0; k < 256; ++k) {
        auto const v = static_cast<uint32_t>(i) * 256 + k;
        auto const o = static_cast<uint32_t>(rng.next());
        auto const o2 = static_cast<uint32_t>(rng.next());
        ints<uint32_t>(rng, v, o, o2);
        ints<uint32_t>(rng, o, v, o2);
        ints<uint32_t>(rng, o, o2, v);
      }
    }
    for (int k = 0; k < 40; ++k) {
      int const sh = rng.range(0, 63);
      uint64_t x = rng.next() >> sh;
      uint64_t y = rng.next() >> rng.range(0, 63);
      uint64_t z = rng.next() >> rng.range(0, 63);
      if (rng.chance(0.2)) {
        x = ~x;
      }
      if (rng.chance(0.2)) { // single bits
        x = uint64_t(1) << rng.range(0, 63);
        y = rng.chance(0.5) ? 0 : ~uint64_t(0);
        z = rng.chance(0.5) ? 0 : ~uint64_t(0);
      }
      ints<uint64_t>(rng, x, y, z);
      ints<uint32_t>(rng, static_cast<uint32_t>(x), static_cast<uint32_t>(y), static_cast<uint32_t>(z));
    }
    for (int k = 0; k < 20; ++k) {
      floats<uint32_t, float>(rng);
      floats<uint32_t, double>(rng);
      floats<uint64_t, double>(rng);
    }
    sorting<2, double>(rng);
    sorting<3, double>(rng);
    sorting<2, float>(rng);
    sorting<3, float>(rng);
  });
}
