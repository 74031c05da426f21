// C05: quadratic and cubic solvers against roots known by construction or found by
// sign analysis in extended precision.
#include "vh.hpp"
#include <um2/math/cubic_equation.hpp>
#include <um2/math/quadratic_equation.hpp>

#include <algorithm>

using LD = long double;

template <class T>
static constexpr T eps = std::numeric_limits<T>::epsilon();

template <class T>
static bool
isMarker(T x)
{
  return x == static_cast<T>(1e16);
}

// error of a root that a few rounding errors in the coefficients explain
template <class T>
static LD
rootTol(std::vector<LD> const & c, LD r, LD factor)
{
  LD s = 0;
  LD d = 0;
  LD p = 1;
  for (size_t k = 0; k < c.size(); ++k) { // c[k] x^k
    s += std::fabs(c[k] * p);
    if (k + 1 < c.size()) {
      d += static_cast<LD>(k + 1) * c[k + 1] * p;
    }
    p *= r;
  }
  return factor * eps<T> * (s / std::fabs(d) + std::fabs(r));
}

static double g_maxq = 0;
static double g_maxc = 0;

template <class T>
static void
expectRoots(std::vector<LD> const & c, std::vector<LD> want, std::vector<T> const & got, LD factor, char const * key)
{
  std::sort(want.begin(), want.end());
  std::string d;
  for (size_t k = c.size(); k-- > 0;) {
    d += vh::fmt("%.17Lg ", c[k]);
  }
  d += "->";
  for (T const g : got) {
    d += vh::fmt(" %.17g", static_cast<double>(g));
  }
  d += " want";
  for (LD const w : want) {
    d += vh::fmt(" %.17Lg", w);
  }
  for (size_t i = 0; i < got.size(); ++i) {
    if (i < want.size()) {
      LD const tol = rootTol<T>(c, want[i], factor);
      LD const e = std::fabs(static_cast<LD>(got[i]) - want[i]);
      double & m = c.size() == 3 ? g_maxq : g_maxc;
      if (e < 1e3 * tol) {
        m = std::max(m, static_cast<double>(e / tol * factor));
      }
      if (!(e <= tol)) {
        vh::fail(key, "root %zu: %s", i, d.c_str());
        return;
      }
    } else if (!isMarker(got[i])) {
      vh::fail(std::string(key) + ".invented", "%s", d.c_str());
      return;
    }
  }
  vh::nontrivial(vh::hashStr(d));
  vh::sample(d);
}

// distinct roots of comparable or very different magnitudes
static std::vector<LD>
chooseRoots(vh::Rng & rng, int n, double span)
{
  std::vector<LD> r;
  for (int guard = 0; guard < 200 && static_cast<int>(r.size()) < n; ++guard) {
    double const x = rng.chance(0.3) ? rng.range(-20, 20) : rng.sign() * rng.logu(1 / span, span);
    bool ok = true;
    for (LD const y : r) {
      ok = ok && std::fabs(x - y) > 0.02L * std::max<LD>(std::fabs(x), std::fabs(y)) && x != y;
    }
    if (ok) {
      r.push_back(x);
    }
  }
  return r;
}

template <class T>
static void
quadratic(vh::Rng & rng)
{
  int const kind = rng.range(0, 6);
  T const a = static_cast<T>(rng.chance(0.3) ? rng.sign() * rng.range(1, 5) : rng.sign() * rng.logu(1e-4, 1e4));
  if (kind <= 2) {
    auto const r = chooseRoots(rng, 2, sizeof(T) == 4 ? 100.0 : 1e4);
    if (r.size() != 2) {
      return;
    }
    // round the coefficients, then recompute what the roots of those coefficients are
    T const b = static_cast<T>(-a * (r[0] + r[1]));
    T const c = static_cast<T>(a * r[0] * r[1]);
    LD const disc = static_cast<LD>(b) * b - 4.0L * a * static_cast<LD>(c);
    if (disc <= 0) {
      return;
    }
    LD const q = -(b + std::copysign(std::sqrt(disc), static_cast<LD>(b))) / 2;
    std::vector<LD> want = {q / a, q == 0 ? 0.0L : c / q};
    if (b == 0) {
      want = {-std::sqrt(-static_cast<LD>(c) / a), std::sqrt(-static_cast<LD>(c) / a)};
    }
    auto const g = um2::solveQuadratic(a, b, c);
    expectRoots<T>({c, b, a}, want, {g[0], g[1]}, 8, "poly.quadratic");
    vh::count("quadratics with two roots");
  } else if (kind == 3) { // clearly complex
    T const p = static_cast<T>(rng.sign() * rng.logu(1e-2, 1e2));
    T const w = static_cast<T>(rng.logu(1e-2, 1e2));
    T const b = static_cast<T>(rng.chance(0.2) ? 0 : -2 * a * p);
    T const c = static_cast<T>(a * (static_cast<LD>(p) * p + static_cast<LD>(w) * w));
    LD const disc = static_cast<LD>(b) * b - 4.0L * a * static_cast<LD>(c);
    if (disc > -1e-5L * std::fabs(4.0L * a * static_cast<LD>(c))) {
      return;
    }
    auto const g = um2::solveQuadratic(a, b, c);
    VH(isMarker(g[0]) && isMarker(g[1]), "poly.quadratic.complex", "%.9g %.9g %.9g -> %.9g %.9g", (double)a, (double)b, (double)c, (double)g[0], (double)g[1]);
    vh::count("quadratics without real roots");
  } else if (kind == 4) { // linear
    T const b = static_cast<T>(rng.sign() * rng.logu(1e-6, 1e6));
    T const c = static_cast<T>(rng.chance(0.2) ? 0 : rng.sign() * rng.logu(1e-6, 1e6));
    auto const g = um2::solveQuadratic(static_cast<T>(0), b, c);
    VH(vh::near(g[0], -c / b, 4 * eps<T>, 0) && isMarker(g[1]), "poly.quadratic.linear", "%.9g %.9g", (double)b, (double)c);
    vh::count("linear equations");
  } else if (kind == 5) { // exact double roots and zero coefficients
    int const r = rng.range(-30, 30);
    int const ai = rng.range(1, 7) * (rng.chance(0.5) ? 1 : -1);
    auto const g = um2::solveQuadratic(static_cast<T>(ai), static_cast<T>(-2 * ai * r), static_cast<T>(ai * r * r));
    VH(vh::near(g[0], r, 4 * eps<T>, 0) && vh::near(g[1], r, 4 * eps<T>, 0), "poly.quadratic.double", "%d (x - %d)^2 -> %.9g %.9g", ai, r, (double)g[0], (double)g[1]);
    T const b = static_cast<T>(rng.sign() * rng.logu(1e-3, 1e3));
    auto const h = um2::solveQuadratic(a, b, static_cast<T>(0));
    T const other = -b / a;
    VH(h[0] <= h[1] && vh::near(h[0], std::min<T>(0, other), 4 * eps<T>, 0) && vh::near(h[1], std::max<T>(0, other), 4 * eps<T>, 0), "poly.quadratic.zero_root",
       "%.9g %.9g 0", (double)a, (double)b);
    vh::count("quadratics with double or zero roots");
  } else { // anything finite: must return, ordered or marked
    T const x = static_cast<T>(rng.sign() * rng.logu(1e-12, 1e12));
    T const y = static_cast<T>(rng.chance(0.2) ? 0 : rng.sign() * rng.logu(1e-12, 1e12));
    T const z = static_cast<T>(rng.chance(0.2) ? 0 : rng.sign() * rng.logu(1e-12, 1e12));
    auto const g = um2::solveQuadratic(x, y, z);
    LD const disc = static_cast<LD>(y) * y - 4.0L * x * static_cast<LD>(z);
    LD const mag = static_cast<LD>(y) * y + std::fabs(4.0L * x * static_cast<LD>(z));
    if (disc > 1e-3L * mag) {
      LD const q = -(y + std::copysign(std::sqrt(disc), static_cast<LD>(y))) / 2;
      std::vector<LD> want = {q / x, z == 0 ? 0.0L : z / q};
      if (y == 0) {
        want = {-std::sqrt(-static_cast<LD>(z) / x), std::sqrt(-static_cast<LD>(z) / x)};
      }
      if (std::fabs(want[0]) < 1e15L && std::fabs(want[1]) < 1e15L) {
        expectRoots<T>({z, y, x}, want, {g[0], g[1]}, 8, "poly.quadratic.random");
      }
    } else if (disc < -1e-3L * mag) {
      VH(isMarker(g[0]) && isMarker(g[1]), "poly.quadratic.complex", "%.9g %.9g %.9g", (double)x, (double)y, (double)z);
    }
    vh::count("quadratics random");
  }
}

static LD
evalp(std::vector<LD> const & c, LD x)
{
  LD r = 0;
  for (size_t k = c.size(); k-- > 0;) {
    r = r * x + c[k];
  }
  return r;
}

static LD
polish(std::vector<LD> const & c, LD x)
{
  for (int i = 0; i < 60; ++i) {
    LD d = 0;
    for (size_t k = c.size() - 1; k > 0; --k) {
      d = d * x + static_cast<LD>(k) * c[k];
    }
    if (d == 0) {
      break;
    }
    LD const n = x - evalp(c, x) / d;
    if (n == x) {
      break;
    }
    x = n;
  }
  return x;
}

template <class T>
static void
cubic(vh::Rng & rng)
{
  int const kind = rng.range(0, 6);
  T const a = static_cast<T>(rng.chance(0.4) ? rng.sign() * rng.range(1, 5) : rng.sign() * rng.logu(1e-3, 1e3));
  LD const factor = 20;
  if (kind <= 2) {
    auto const r = chooseRoots(rng, 3, sizeof(T) == 4 ? 10.0 : 1e3);
    if (r.size() != 3) {
      return;
    }
    T const b = static_cast<T>(-a * (r[0] + r[1] + r[2]));
    T const c = static_cast<T>(a * (r[0] * r[1] + r[0] * r[2] + r[1] * r[2]));
    T const d = static_cast<T>(-a * r[0] * r[1] * r[2]);
    std::vector<LD> const co = {d, c, b, a};
    std::vector<LD> want;
    for (LD const x : r) {
      want.push_back(polish(co, x));
    }
    std::sort(want.begin(), want.end());
    LD const mag = std::max(std::fabs(want[0]), std::fabs(want[2]));
    bool sep = true; // separation must dominate the rounding of the coefficients
    for (size_t i = 0; i < 3; ++i) {
      LD const gap = std::min(i > 0 ? want[i] - want[i - 1] : 1e300L, i < 2 ? want[i + 1] - want[i] : 1e300L);
      sep = sep && rootTol<T>(co, want[i], factor) < 0.1L * gap;
      sep = sep && gap > (sizeof(T) == 4 ? 1e-2L : 1e-4L) * mag;
    }
    if (!sep) {
      vh::count("cubics skipped (roots not separated)");
      return;
    }
    auto const g = um2::solveCubic(a, b, c, d);
    expectRoots<T>(co, want, {g[0], g[1], g[2]}, factor, "poly.cubic");
    vh::count("cubics with three roots");
  } else if (kind == 3) { // one real root
    double const span = sizeof(T) == 4 ? 10.0 : 100.0;
    LD const r = rng.sign() * rng.logu(1 / span, span);
    LD const p = rng.sign() * rng.logu(1 / span, span);
    LD const w = rng.logu(1 / span, span);
    if (w < 0.05L * std::max(std::fabs(p), std::fabs(r))) {
      return;
    }
    T const b = static_cast<T>(-a * (r + 2 * p));
    T const c = static_cast<T>(a * (2 * p * r + p * p + w * w));
    T const d = static_cast<T>(-a * r * (p * p + w * w));
    std::vector<LD> const co = {d, c, b, a};
    auto const g = um2::solveCubic(a, b, c, d);
    expectRoots<T>(co, {polish(co, r)}, {g[0], g[1], g[2]}, factor, "poly.cubic.one");
    vh::count("cubics with one root");
  } else if (kind == 4) { // lower degree
    auto const r = chooseRoots(rng, 2, 50.0);
    if (r.size() != 2) {
      return;
    }
    T const b = static_cast<T>(-a * (r[0] + r[1]));
    T const c = static_cast<T>(a * r[0] * r[1]);
    std::vector<LD> const co = {c, b, a};
    LD const disc = static_cast<LD>(b) * b - 4.0L * a * static_cast<LD>(c);
    if (disc <= 0) {
      return;
    }
    std::vector<LD> want = {polish(co, r[0]), polish(co, r[1])};
    auto const g = um2::solveCubic(static_cast<T>(0), a, b, c);
    expectRoots<T>(co, want, {g[0], g[1], g[2]}, 8, "poly.cubic.quadratic");
    auto const h = um2::solveCubic(static_cast<T>(0), static_cast<T>(0), a, c);
    VH(vh::near(h[0], -c / a, 4 * eps<T>, 0) && isMarker(h[1]) && isMarker(h[2]), "poly.cubic.linear", "%.9g %.9g", (double)a, (double)c);
    // a root at zero
    if (c != 0) {
      auto const z = um2::solveCubic(a, b, c, static_cast<T>(0));
      std::vector<LD> w3 = {want[0], want[1], 0};
      expectRoots<T>({0, c, b, a}, w3, {z[0], z[1], z[2]}, 64, "poly.cubic.zero_root");
    }
    vh::count("cubics of lower degree");
  } else if (kind == 5) { // exact multiple roots: near the root, never a wrong extra root
    int const r = rng.range(-8, 8);
    int const s = rng.chance(0.3) ? r : rng.range(-8, 8);
    int const ai = rng.range(1, 4);
    auto const g = um2::solveCubic(static_cast<T>(ai), static_cast<T>(-ai * (2 * r + s)), static_cast<T>(ai * (r * r + 2 * r * s)), static_cast<T>(-ai * r * r * s));
    bool has_s = false;
    bool all = true;
    double const tol = r == s ? std::cbrt(eps<T>) * 40 : std::sqrt(eps<T>) * 200;
    for (int k = 0; k < 3; ++k) {
      if (isMarker(g[k])) {
        continue;
      }
      double const dr = std::fabs(g[k] - r);
      double const ds = std::fabs(g[k] - s);
      all = all && std::min(dr, ds) <= tol * 9;
      has_s = has_s || ds <= tol * 9;
    }
    VH(all && has_s && g[0] <= g[1] && g[1] <= g[2], "poly.cubic.multiple", "%d (x-%d)^2 (x-%d) -> %.9g %.9g %.9g", ai, r, s, (double)g[0], (double)g[1], (double)g[2]);
    vh::count("cubics with multiple roots");
  } else { // anything finite must terminate; returned roots are roots
    double const lo = sizeof(T) == 4 ? 1e-4 : 1e-8;
    T const x = static_cast<T>(rng.sign() * rng.logu(lo, 1 / lo));
    T const y = static_cast<T>(rng.chance(0.2) ? 0 : rng.sign() * rng.logu(lo, 1 / lo));
    T const z = static_cast<T>(rng.chance(0.2) ? 0 : rng.sign() * rng.logu(lo, 1 / lo));
    T const w = static_cast<T>(rng.chance(0.2) ? 0 : rng.sign() * rng.logu(lo, 1 / lo));
    auto const g = um2::solveCubic(x, y, z, w);
    VH(g[0] <= g[1] && g[1] <= g[2], "poly.cubic.order", "%.9g %.9g %.9g %.9g", (double)x, (double)y, (double)z, (double)w);
    VH(!isMarker(g[0]), "poly.cubic.noroot", "%.9g %.9g %.9g %.9g", (double)x, (double)y, (double)z, (double)w);
    vh::count("cubics random");
  }
}

int
main(int argc, char ** argv)
{
  int const r = vh::run(argc, argv, "poly", [](vh::Rng & rng, uint64_t) {
    for (int k = 0; k < 4; ++k) {
      quadratic<double>(rng);
      cubic<double>(rng);
    }
    quadratic<float>(rng);
    cubic<float>(rng);
  });
  if (getenv("VH_VERBOSE") != nullptr) {
    printf("largest error factor: quadratic %g cubic %g\n", g_maxq, g_maxc);
  }
  return r;
}
